#include "h.h"
#include <re/re.h>
/* Eager outputs. */
static fsm_output_id_t EOS[] = { 0, 4294967295u, 9 };
static const fsm_end_id_t ENDS[] = { 3 };
static struct ext ref, x, pat[3];
#define CO (1u << 15)
#define VIS 0xffff7fffu
/* what is left when states that cannot reach an end are trimmed */
static uint32_t w_trimmed(const uint32_t *c) { return c[0] & CO ? c[0] & ~CO : 0; }
static uint32_t w_kept(const uint32_t *c) { return c[0] & ~CO; }
static void draw_outputs(const struct aut *a, struct fsm *f, unsigned nid) {
	unsigned i; xm co = x_coreach(&ref, ref.ends);
	for (i = 0; i < a->n; i++) {
		unsigned k = sx_choice("eager", 1u << nid);
		if (k & 1) { sx_assert(fsm_eager_output_set(f, i, EOS[0]), "fsm_eager_output_set failed"); x_col(&ref, i, 1u << 16); }
		if (k & 2) { sx_assert(fsm_eager_output_set(f, i, EOS[1]), "fsm_eager_output_set failed"); x_col(&ref, i, 1u << 17); }
		if (co >> i & 1) x_col(&ref, i, CO);
	}
}
static void agree(struct fsm *f, uint32_t (*w)(const uint32_t *), const char *msg) {
	const struct ext *xs[2]; xs[0] = &ref; xs[1] = &x;
	x_of(&x, f); x_ids(&x, f, ENDS, 1, EOS, 3);
	x_rel(xs, 2, w, VIS, msg);
}
void h_keep(void) {
	struct aut a; struct fsm *f, *g; unsigned i, op = sx_choice("op", 9);
	use_pal(PAL_A, sx_param("labels", 1));
	draw_aut(&a, sx_param("N", 3), sx_param("E", 2), NPAL, 1, 0); x_aut(&ref, &a); f = build(&a, NULL);
	draw_outputs(&a, f, sx_param("ids", 1));
	switch (op) {
	case 0: sx_assert(fsm_remove_epsilons(f), "fsm_remove_epsilons failed"); agree(f, w_kept, "epsilon removal changed the eager outputs"); break;
	case 1: sx_assert(fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL) >= 0, "fsm_trim failed"); agree(f, w_kept, "trimming changed the eager outputs"); break;
	case 2: g = fsm_clone(f); fsm_free(f); f = g; agree(f, w_kept, "cloning changed the eager outputs"); break;
	case 3: sx_assert(fsm_shuffle(f, 7), "fsm_shuffle failed"); agree(f, w_kept, "fsm_shuffle changed the eager outputs"); break;
	case 4: sx_assert(fsm_determinise(f), "fsm_determinise failed"); agree(f, w_kept, "determinising changed the eager outputs"); break;
	case 5: sx_assert(fsm_determinise(f), "fsm_determinise failed"); sx_assert(fsm_minimise(f), "fsm_minimise failed"); agree(f, w_trimmed, "minimising changed the eager outputs"); break;
	case 6: for (i = 0; i < a.n; i++) if (!(ref.col[i] & CO)) x_uncol(&ref, i);
		sx_assert(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "fsm_trim failed"); sx_assert(fsm_determinise(f), "fsm_determinise failed"); agree(f, w_trimmed, "trimming and determinising changed the eager outputs"); break;
	case 7: sx_assert(fsm_vacuum(f), "fsm_vacuum failed"); agree(f, w_kept, "fsm_vacuum changed the eager outputs"); break;
	case 8: sx_assert(fsm_remove_epsilons(f), "fsm_remove_epsilons failed"); sx_assert(fsm_determinise(f), "fsm_determinise failed"); sx_assert(fsm_minimise(f), "fsm_minimise failed"); agree(f, w_trimmed, "epsilon removal, determinising and minimising changed the eager outputs"); break;
	}
	sx_reach("checked"); fsm_free(f); NO_LEAK("operation");
}
/* two automata unioned */
static uint32_t w_u(const uint32_t *c) { return (c[0] | c[1]) & ~CO; }
void h_union(void) {
	struct aut a; struct fsm *f[2], *q; unsigned i, k; static struct ext r[2]; const struct ext *xs[3];
	use_pal(PAL_A, sx_param("labels", 1));
	for (k = 0; k < 2; k++) {
		draw_aut(&a, 2, sx_param("E", 1), NPAL, 1, 0); x_aut(&ref, &a); f[k] = build(&a, NULL);
		for (i = 0; i < 2; i++) if (sx_choice("eager", 2)) { fsm_eager_output_set(f[k], i, EOS[k]); x_col(&ref, i, 1u << (16 + k)); }
		r[k] = ref;
	}
	q = sx_choice("how", 2) ? fsm_union_array(2, f, NULL) : fsm_union(f[0], f[1], NULL); sx_assert(q != NULL, "union failed");
	sx_assert(fsm_determinise(q), "fsm_determinise failed");
	x_of(&x, q); x_ids(&x, q, ENDS, 1, EOS, 3);
	xs[0] = &r[0]; xs[1] = &r[1]; xs[2] = &x; x_rel(xs, 3, w_u, VIS, "eager outputs lost or invented by union and determinisation");
	sx_reach("checked"); fsm_free(q); NO_LEAK("union");
}
/* the callback during execution: exactly the outputs of the states entered, in the order they are entered */
static struct { fsm_output_id_t id; unsigned at; } ev[64]; static unsigned nev; static struct wbuf *cur;
static int opq;
static void cb(fsm_output_id_t id, void *o) { sx_assert(o == &opq, "wrong opaque pointer"); sx_assert(nev < 64, "too many outputs"); ev[nev].id = id; ev[nev].at = cur->i; nev++; }
void h_exec(void) {
	struct aut a; struct fsm *f; unsigned L = sx_param("L", 3), i, s, k, done = 0; unsigned char w[8]; struct wbuf b; fsm_state_t end; int r; uint8_t out[8];
	use_pal(PAL_D, sx_param("labels", 1));
	draw_dfa(&a, sx_param("N", 2), NPAL, 99, 0); f = build(&a, NULL); memset(out, 0, sizeof out);
	for (i = 0; i < a.n; i++) { out[i] = sx_choice("eager", 4); for (k = 0; k < 2; k++) if (out[i] >> k & 1) fsm_eager_output_set(f, i, EOS[k]); }
	fsm_eager_output_set_cb(f, cb, &opq);
	{ fsm_eager_output_cb *c2; void *o2; fsm_eager_output_get_cb(f, &c2, &o2); sx_assert(c2 == cb && o2 == &opq, "fsm_eager_output_get_cb"); }
	sx_word(w, L); b.p = w; b.n = L; b.i = 0; cur = &b; nev = 0;
	r = fsm_exec(f, wgetc, &b, &end, NULL);
	s = a.start; i = 0;
	for (;;) {
		unsigned seen = 0, nx = a.n, e;
		while (done < nev && ev[done].at == i) { for (k = 0; k < 2; k++) if (ev[done].id == EOS[k]) break; sx_assert(k < 2, "an output that was never set"); sx_assert(!(seen >> k & 1), "an output reported twice on one entry"); seen |= 1u << k; done++; }
		sx_assert(seen == out[s], "outputs reported on entering a state are not the state's");
		if (i == L) break;
		for (e = 0; e < a.ne; e++) if (a.e[e].from == s && in_pal(a.e[e].lab, w[i])) nx = a.e[e].to;
		if (nx == a.n) break;
		s = nx; i++;
	}
	sx_assert(done == nev, "an output reported without entering a state");
	sx_assert(r == (i == L && (a.ends >> s & 1)), "fsm_exec result");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
/* the store: ids with unconstrained bytes, many states, many ids */
static unsigned char has[300];
void h_store(void) {
	struct fsm *f = fsm_new(NULL), *g; unsigned n = 1 + sx_choice("n", sx_param("N", 40)), i, at = n / 2, k = sx_choice("extra", sx_param("K", 10)), op = sx_choice("op", 5), m; fsm_output_id_t v = (fsm_output_id_t) sx_byte("id") << 24 | 3, b[40], want[40]; size_t c, j, l; unsigned ok = 1;
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0); for (i = 0; i + 1 < n; i++) fsm_addedge_literal(f, i, i + 1, 'a');
	fsm_setend(f, n - 1, 1); m = 0;
	for (i = 0; i < n; i++) fsm_eager_output_set(f, i, 3u + (i & 7) * 0x10000000u);
	want[m++] = 3u + (at & 7) * 0x10000000u;
	for (i = 0; i < k; i++) { want[m] = (i * 5 % 11) * 0x11000000u + 1; fsm_eager_output_set(f, at, want[m]); m++; }
	fsm_eager_output_set(f, at, v); want[m++] = v; fsm_eager_output_set(f, at, v);
	if (op == 1) { g = fsm_clone(f); fsm_free(f); f = g; }
	if (op == 2) { fsm_removestate(f, n - 1); if (at == n - 1) { fsm_free(f); sx_reach("gone"); return; } n--; }
	if (op == 3) { fsm_eager_output_set_on_ends(f, 77); if (at == n - 1) want[m++] = 77; }
	if (op == 4 && n > 2) { fsm_state_t s; fsm_addstate(f, &s); fsm_eager_output_set(f, s, 5); fsm_addstate(f, &s); sx_assert(fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL) >= 0, "fsm_trim failed"); sx_assert(fsm_countstates(f) == n, "fsm_trim: wrong number of states"); }
	c = fsm_eager_output_count(f, at); sx_assert(c <= m, "more eager outputs than were set");
	sx_assert(fsm_eager_output_get(f, at, c, b), "fsm_eager_output_get failed with a large enough buffer");
	sx_assert(!fsm_eager_output_get(f, at, c - 1, b + 0) , "fsm_eager_output_get accepted a buffer that is too small");
	sx_assert(fsm_eager_output_get(f, at, 40, b), "fsm_eager_output_get failed with a large enough buffer");
	for (j = 1; j < c; j++) ok &= b[j - 1] < b[j];
	for (j = 0; j < c; j++) { unsigned in = 0; for (l = 0; l < m; l++) in |= b[j] == want[l]; ok &= in; }
	for (l = 0; l < m; l++) { unsigned in = 0; for (j = 0; j < c; j++) in |= b[j] == want[l]; ok &= in; }
	sx_assert(ok, "the eager outputs of a state are not those that were set, sorted");
	for (i = 0; i < n; i++) if (i != at) { if (op == 3 && i == n - 1) continue; if (n > 20 && i % 5) continue; sx_assert(fsm_eager_output_count(f, i) == 1 && fsm_eager_output_get(f, i, 1, b) && b[0] == 3u + (i & 7) * 0x10000000u, "eager outputs of another state changed"); }
	sx_reach("checked"); fsm_free(f); NO_LEAK("eager outputs");
}
/* groups of patterns combined for repeated matching: for words of any length, the ids
 * reported on the way to a match are those of the patterns that match */
static const char *const ATOM[] = { "a", "b", ".", "ab", "a*", "b?", "(a|b)", "a+b", "(^a|b)", "(a|b$)", "", "[ab]c" };
static struct fsm *comp(const char *s, int link) { struct wbuf b; struct re_err e; b.p = (const unsigned char *) s; b.n = strlen(s); b.i = 0; return re_comp(RE_PCRE, wgetc, &b, NULL, link ? RE_SAVE_LINKAGE_INFO : 0, &e); }
static uint32_t w_pat(const uint32_t *c) { return (c[0] & 1) << 16 | (c[1] & 1) << 17 | (c[2] & 1) << 18; }
static struct { unsigned s, seen; } est[1024]; static struct ext gx;
/* the DFA of the group, unrolled so that a state also remembers what was reported on the way */
static void unroll(const struct ext *d) {
	unsigned i, k, j, n = 0;
	x_init(&gx, 0); gx.idx = 1; gx.hasstart = d->hasstart; if (!d->hasstart) return;
	est[0].s = d->start; est[0].seen = d->col[d->start] >> 16; n = 1;
	for (i = 0; i < n; i++) for (k = 0; k < d->ne; k++) if (d->e[k].from == est[i].s) {
		unsigned seen = est[i].seen | d->col[d->e[k].to] >> 16;
		for (j = 0; j < n; j++) if (est[j].s == d->e[k].to && est[j].seen == seen) break;
		if (j == n) { sx_assert(n < 1024, "harness: group too large"); est[n].s = d->e[k].to; est[n].seen = seen; n++; }
		x_edge(&gx, i, j, d->e[k].lo, d->e[k].hi);
	}
	gx.n = n; 
	for (i = 0; i < n; i++) { gx.col[i] = 0; if (d->col[est[i].s] & 1) gx.col[i] = (est[i].seen | (d->col[est[i].s] >> 1 & 7)) << 16; }
}
void h_group(void) {
	struct fsm *f[3], *q; unsigned n = sx_param("patterns", 2), i, j, na = sx_param("atoms", 6), seq = sx_param("seq", 1); const struct ext *xs[4]; fsm_end_id_t ids[3]; fsm_output_id_t os[3]; char s[3][32];
	for (i = 0; i < 3; i++) { x_init(&pat[i], 1); ids[i] = os[i] = 5 + i; }
	for (i = 0; i < n; i++) {
		s[i][0] = 0;
		if (sx_choice("anchor^", 2)) strcat(s[i], "^");
		for (j = 0; j < seq; j++) strcat(s[i], ATOM[sx_choice("atom", na)]);
		if (sx_choice("anchor$", 2)) strcat(s[i], "$");
		f[i] = comp(s[i], 0); sx_assert(f[i] != NULL, "re_comp failed");
		x_of(&pat[i], f[i]); fsm_free(f[i]);
		f[i] = comp(s[i], 1); sx_assert(f[i] != NULL, "re_comp failed");
	}
	q = fsm_union_repeated_pattern_group(n, f, NULL, 5);
	sx_assert(q != NULL, "fsm_union_repeated_pattern_group failed");
	sx_assert(fsm_determinise(q), "fsm_determinise failed");
	if (sx_choice("minimise", 2)) sx_assert(fsm_minimise(q), "fsm_minimise failed");
	x_of(&x, q); x_ids(&x, q, ids, 3, os, 3);
	unroll(&x);
	for (i = 0; i < 3; i++) xs[i] = &pat[i]; xs[3] = &gx;
	x_rel(xs, 4, w_pat, 0x00070000u, "a group of patterns does not report exactly those that match"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_union_repeated_pattern_group");
}
