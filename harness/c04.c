#include "h.h"
/* Concatenation and reversal, against automata built by the textbook construction. */
static struct ext ra, rb, rc, x;
static struct fsm *draw1(struct ext *r, unsigned n, unsigned e, int eps, int anystart) {
	struct aut a; draw_aut(&a, n, e, NPAL, eps, anystart); x_aut(r, &a); return build(&a, NULL);
}
static unsigned x_append(struct ext *d, const struct ext *s) { /* copy of s inside d; accepting marks are not copied */
	unsigned i, b = d->n;
	for (i = 0; i < s->n; i++) d->col[b + i] = 0;
	d->n += s->n;
	for (i = 0; i < s->ne; i++) { if (s->e[i].eps) x_eps(d, b + s->e[i].from, b + s->e[i].to); else x_edge(d, b + s->e[i].from, b + s->e[i].to, s->e[i].lo, s->e[i].hi); }
	return b;
}
static void ref_concat(struct ext *d, const struct ext *a, const struct ext *b) {
	unsigned i, ba, bb;
	x_init(d, 0); ba = x_append(d, a); bb = x_append(d, b);
	d->hasstart = 1; d->start = ba + a->start;
	for (i = 0; i < a->n; i++) if (a->ends >> i & 1) x_eps(d, ba + i, bb + b->start);
	for (i = 0; i < b->n; i++) if (b->ends >> i & 1) x_end(d, bb + i);
}
static void ref_reverse(struct ext *d, const struct ext *a) {
	unsigned i;
	x_init(d, a->n + 1); d->hasstart = 1; d->start = a->n;
	for (i = 0; i < a->ne; i++) if (a->e[i].eps) x_eps(d, a->e[i].to, a->e[i].from); else x_edge(d, a->e[i].to, a->e[i].from, a->e[i].lo, a->e[i].hi);
	for (i = 0; i < a->n; i++) if (a->ends >> i & 1) x_eps(d, a->n, i);
	if (a->hasstart) x_end(d, a->start);
}
static void grow(struct fsm *t, unsigned n) { unsigned k; for (k = 0; k < 12; k++) fsm_addstate_bulk(t, 16); for (k = fsm_countstates(t); k-- > n; ) fsm_removestate(t, k); }
void h_concat(void) {
	struct fsm *a, *b, *q; struct fsm_combine_info ci; unsigned g, any = sx_param("anystart", 0);
	use_pal(PAL_A, sx_param("labels", 2));
	a = draw1(&ra, sx_param("N", 2), sx_param("E", 2), 1, any);
	b = draw1(&rb, sx_param("M", 2), sx_param("F", 2), 1, any);
	sx_assume(ra.ends != 0);
	g = sx_param("grow", 0) ? sx_choice("grow", 3) : 0; if (g == 1) grow(a, ra.n); if (g == 2) grow(b, rb.n);
	ref_concat(&rc, &ra, &rb);
	q = fsm_concat(a, b, sx_choice("info", 2) ? &ci : NULL);
	sx_assert(q != NULL, "fsm_concat failed");
	x_of(&x, q);
	x_lang(&rc, &x, "fsm_concat is not the concatenation"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_concat");
}
/* three operands, to either side */
void h_concat3(void) {
	struct fsm *f[3], *q; static struct ext r[3], t; unsigned i, left = sx_choice("assoc", 2);
	use_pal(PAL_A, 1);
	for (i = 0; i < 3; i++) { f[i] = draw1(&r[i], sx_param("N", 2), sx_param("E", 1), 0, 0); sx_assume(r[i].ends != 0); }
	if (left) { ref_concat(&t, &r[0], &r[1]); ref_concat(&rc, &t, &r[2]); q = fsm_concat(f[0], f[1], NULL); sx_assert(q != NULL, "fsm_concat failed"); q = fsm_concat(q, f[2], NULL); }
	else { ref_concat(&t, &r[1], &r[2]); ref_concat(&rc, &r[0], &t); q = fsm_concat(f[1], f[2], NULL); sx_assert(q != NULL, "fsm_concat failed"); q = fsm_concat(f[0], q, NULL); }
	sx_assert(q != NULL, "fsm_concat failed");
	x_of(&x, q); x_lang(&rc, &x, "repeated fsm_concat is not the concatenation"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_concat");
}
void h_reverse(void) {
	struct fsm *f; use_pal(PAL_A, sx_param("labels", 2));
	f = draw1(&ra, sx_param("N", 3), sx_param("E", 3), sx_param("eps", 1), sx_param("anystart", 1));
	ref_reverse(&rb, &ra);
	sx_assert(fsm_reverse(f), "fsm_reverse failed");
	x_of(&x, f); x_lang(&rb, &x, "fsm_reverse does not accept exactly the mirror images");
	if (sx_param("twice", 1)) { sx_assert(fsm_reverse(f), "fsm_reverse failed"); x_of(&x, f); x_lang(&ra, &x, "reversing twice changed the language"); }
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_reverse");
}
void h_label(void) { /* unconstrained labels */
	struct fsm *f = fsm_new(NULL), *g; unsigned c = sx_byte("c"), d = sx_byte("d"), op = sx_choice("op", 2);
	x_init(&ra, 3); ra.hasstart = 1; x_end(&ra, 1); x_end(&ra, 2);
	fsm_addstate_bulk(f, 3); fsm_setstart(f, 0); fsm_setend(f, 1, 1); fsm_setend(f, 2, 1);
	c = sx_fork(c); d = sx_fork(d);
	x_edge(&ra, 0, 1, c, c); x_edge(&ra, 1, 2, d, d); x_edge(&ra, 2, 0, 'x', 'x');
	fsm_addedge_literal(f, 0, 1, (char) c); fsm_addedge_literal(f, 1, 2, (char) d); fsm_addedge_literal(f, 2, 0, 'x');
	if (op) { ref_reverse(&rb, &ra); sx_assert(fsm_reverse(f), "fsm_reverse failed"); }
	else { g = fsm_clone(f); ref_concat(&rb, &ra, &ra); f = fsm_concat(f, g, NULL); sx_assert(f != NULL, "fsm_concat failed"); }
	x_of(&x, f); x_lang(&rb, &x, "concatenation or reversal with unconstrained labels is not exact"); sx_reach("checked");
	fsm_free(f); NO_LEAK("concatenation and reversal");
}
