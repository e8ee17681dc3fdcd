#include "h.h"
/* Boolean operations on two automata, each drawn over all small structures. */
static struct ext ra, rb, x;
static struct fsm *draw1(struct ext *r, unsigned n, unsigned e, int eps) { /* (start=2: perhaps without a start state) */
	struct aut a; draw_aut(&a, n, e, NPAL, eps, sx_param("start", 0)); x_aut(r, &a); return build(&a, NULL);
}
static void two(struct fsm **a, struct fsm **b, int eps) {
	use_pal(PAL_A, sx_param("labels", 2));
	*a = draw1(&ra, sx_param("N", 2), sx_param("E", 2), eps);
	*b = draw1(&rb, sx_param("M", 2), sx_param("F", 2), eps);
}
/* operand states must be found in the result at the reported offsets */
static void located(const struct ext *r, unsigned base, const struct fsm *q) {
	unsigned i;
	for (i = 0; i < r->n; i++) {
		sx_assert(base + i < x.n, "combine info: base out of range");
		sx_assert(fsm_isend(q, base + i) == (int) (r->ends >> i & 1), "combine info: base does not locate the operand");
	}
	for (i = 0; i < r->ne; i++) {
		unsigned k, c = r->e[i].lo;
		for (k = 0; k < x.ne; k++) if (x.e[k].from == base + r->e[i].from && x.e[k].to == base + r->e[i].to && x.e[k].eps == r->e[i].eps && (r->e[i].eps || (x.e[k].lo <= c && c <= x.e[k].hi))) break;
		sx_assert(k < x.ne, "combine info: base does not locate the operand");
	}
}
void h_union(void) {
	struct fsm *a, *b, *q; struct fsm_combine_info ci;
	two(&a, &b, 1);
	/* which operand comes first may depend on how many states were allocated */
	{ unsigned g = sx_choice("grow", 3); if (g) { struct fsm *t = g == 1 ? a : b; unsigned k; for (k = 0; k < 12; k++) fsm_addstate_bulk(t, 16); for (k = fsm_countstates(t); k-- > (g == 1 ? ra.n : rb.n); ) fsm_removestate(t, k); } }
	memset(&ci, 0xff, sizeof ci);
	q = fsm_union(a, b, &ci);
	sx_assert(q != NULL, "fsm_union failed");
	x_of(&x, q);
	x_rel3(&ra, &rb, &x, w_or, 1, "fsm_union is not the union");
	located(&ra, ci.base_a, q); located(&rb, ci.base_b, q);
	if (ci.base_a) sx_reach("b first"); else sx_reach("a first");
	fsm_free(q); NO_LEAK("fsm_union");
}
void h_intersect(void) {
	struct fsm *a, *b, *q; two(&a, &b, 1);
	q = fsm_intersect(a, b);
	sx_assert(q != NULL, "fsm_intersect failed");
	x_of(&x, q);
	x_rel3(&ra, &rb, &x, w_and, 1, "fsm_intersect is not the intersection"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_intersect");
}
void h_subtract(void) {
	struct fsm *a, *b, *q; two(&a, &b, 1);
	q = fsm_subtract(a, b);
	sx_assert(q != NULL, "fsm_subtract failed");
	x_of(&x, q);
	x_rel3(&ra, &rb, &x, w_sub, 1, "fsm_subtract is not the difference"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_subtract");
}
void h_complement(void) {
	struct aut a; struct fsm *f; const struct ext *xs[2];
	use_pal(PAL_D, sx_param("labels", 2)); draw_dfa(&a, sx_param("N", 3), NPAL, 99, 1); x_aut(&ra, &a); f = build(&a, NULL);
	sx_assert(fsm_complement(f), "fsm_complement failed");
	x_of(&x, f); xs[0] = &ra; xs[1] = &x;
	x_rel(xs, 2, w_not, 1, "fsm_complement is not the complement"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_complement");
}
void h_charset(void) {
	struct aut a; struct fsm *f, *q; unsigned i, n; char cs[4]; unsigned m;
	use_pal(PAL_D, 2); draw_dfa(&a, sx_param("N", 2), NPAL, 99, 0); x_aut(&ra, &a); f = build(&a, NULL);
	n = sx_choice("n", sx_param("K", 2) + 1);
	x_init(&rb, 1); rb.hasstart = 1; x_end(&rb, 0);
	for (i = 0; i < n; i++) { m = sx_byte("c"); m = sx_fork(m); cs[i] = m; x_edge(&rb, 0, 0, m, m); }
	q = fsm_intersect_charset(f, n, cs);
	sx_assert(q != NULL, "fsm_intersect_charset failed");
	x_of(&x, q);
	x_rel3(&ra, &rb, &x, w_and, 1, "fsm_intersect_charset is not the restriction"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_intersect_charset");
}
static uint32_t w_or3(const uint32_t *c) { return c[0] | c[1] | c[2]; }
void h_array(void) {
	static struct ext r[3]; struct fsm *f[3], *q; struct fsm_combined_base_pair bp[3]; const struct ext *xs[4]; unsigned i, n = 1 + sx_choice("count", 3);
	use_pal(PAL_A, 2);
	for (i = 0; i < 3; i++) x_init(&r[i], 1);
	for (i = 0; i < n; i++) { f[i] = draw1(&r[i], sx_param("N", 2), sx_param("E", 1), 0); }
	{ unsigned g = sx_choice("grow", n + 1); if (g) { struct fsm *t = f[g - 1]; unsigned k; for (k = 0; k < 12; k++) fsm_addstate_bulk(t, 16); for (k = fsm_countstates(t); k-- > r[g - 1].n; ) fsm_removestate(t, k); } }
	q = fsm_union_array(n, f, bp);
	for (i = 0; i < n; i++) if (!r[i].hasstart && n > 1) { sx_assert(q == NULL, "an automaton without a start state was combined"); NO_LEAK("fsm_union_array"); sx_reach("refused"); return; }
	sx_assert(q != NULL, "fsm_union_array failed");
	x_of(&x, q);
	for (i = 0; i < 3; i++) xs[i] = &r[i]; xs[3] = &x;
	x_rel(xs, 4, w_or3, 1, "fsm_union_array is not the union");
	for (i = 0; i < n; i++) located(&r[i], bp[i].state, q);
	sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_union_array");
}
/* labels that are unconstrained bytes on both sides of a product */
void h_product_label(void) {
	struct fsm *a = fsm_new(NULL), *b = fsm_new(NULL), *q; unsigned c, d, op = sx_choice("op", 3);
	x_init(&ra, 3); x_init(&rb, 2); ra.hasstart = rb.hasstart = 1; x_end(&ra, 1); x_end(&ra, 2); x_end(&rb, 1);
	fsm_addstate_bulk(a, 3); fsm_addstate_bulk(b, 2); fsm_setstart(a, 0); fsm_setstart(b, 0); fsm_setend(a, 1, 1); fsm_setend(a, 2, 1); fsm_setend(b, 1, 1);
	c = sx_byte("c"); d = sx_byte("d");
	c = sx_fork(c); d = sx_fork(d);
	x_edge(&ra, 0, 1, c, c); x_edge(&rb, 0, 1, d, d); x_edge(&rb, 0, 1, 'm', 'm'); x_edge(&ra, 1, 2, 'x', 'x'); x_edge(&rb, 1, 1, 'x', 'x');
	fsm_addedge_literal(a, 0, 1, (char) c); fsm_addedge_literal(b, 0, 1, (char) d); fsm_addedge_literal(b, 0, 1, 'm'); fsm_addedge_literal(a, 1, 2, 'x'); fsm_addedge_literal(b, 1, 1, 'x');
	q = op == 0 ? fsm_union(a, b, NULL) : op == 1 ? fsm_intersect(a, b) : fsm_subtract(a, b);
	sx_assert(q != NULL, "operation failed");
	x_of(&x, q);
	x_rel3(&ra, &rb, &x, op == 0 ? w_or : op == 1 ? w_and : w_sub, 1, "boolean operation with unconstrained labels is not exact");
	sx_reach("checked");
	fsm_free(q); NO_LEAK("boolean operations");
}
/* any automaton, with or without a start state; a label may stand for every byte */
void h_complement_nfa(void) {
	struct aut a; struct fsm *f; const struct ext *xs[2]; static const struct pal any[] = { { 1, { { 0, 255 } } }, { 1, { { 'b', 'b' } } }, { 2, { { 'a', 'b' }, { 128, 255 } } } };
	use_pal(any, sx_param("labels", 2)); draw_aut(&a, sx_param("N", 2), sx_param("E", 3), NPAL, sx_param("eps", 1), 2); x_aut(&ra, &a); f = build(&a, NULL);
	sx_assert(fsm_complement(f), "fsm_complement failed");
	x_of(&x, f); xs[0] = &ra; xs[1] = &x;
	x_rel(xs, 2, w_not, 1, "fsm_complement is not the complement"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_complement");
}
