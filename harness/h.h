/* Shared by the harnesses: abstract automata drawn symbolically, a reference simulation
 * written without branches on symbolic data, and builders through the public API. */
#ifndef H_H
#define H_H
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <fsm/fsm.h>
#include <fsm/alloc.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/parser.h>
#include <fsm/vm.h>

#define MAXE 24
#define EPS 255
typedef uint32_t mask_t;                 /* set of states, up to 32 */
struct aut { unsigned n, start, ne; int hasstart; mask_t ends; struct { uint8_t from, to, lab; } e[MAXE]; };

/* label palette: each entry is a set of bytes given as ranges */
struct pal { unsigned n; struct { uint8_t lo, hi; } r[4]; };
static const struct pal *PAL; static unsigned NPAL;

static inline unsigned in_pal(unsigned l, unsigned c) {
	unsigned r = 0, i; if (l == EPS) return 0;
	for (i = 0; i < PAL[l].n; i++) r |= (c >= PAL[l].r[i].lo) & (c <= PAL[l].r[i].hi);
	return r;
}
static inline mask_t bit(unsigned i) { return (mask_t) 1 << i; }
static mask_t closure(const struct aut *a, mask_t s) {
	unsigned k, i;
	for (k = 0; k < a->n; k++)
		for (i = 0; i < a->ne; i++)
			if (a->e[i].lab == EPS) s |= ((s >> a->e[i].from) & 1u) << a->e[i].to;
	return s;
}
static mask_t sim_start(const struct aut *a) { return a->hasstart ? closure(a, bit(a->start)) : 0; }
static mask_t sim_step(const struct aut *a, mask_t s, unsigned c) {
	mask_t r = 0; unsigned i;
	for (i = 0; i < a->ne; i++)
		if (a->e[i].lab != EPS) r |= (((s >> a->e[i].from) & 1u) & in_pal(a->e[i].lab, c)) << a->e[i].to;
	return closure(a, r);
}
static unsigned sim_acc(const struct aut *a, mask_t s) { return (s & a->ends) != 0; }
static unsigned sim_word(const struct aut *a, const unsigned char *w, unsigned n) {
	mask_t s = sim_start(a); unsigned i;
	for (i = 0; i < n; i++) s = sim_step(a, s, w[i]);
	return sim_acc(a, s);
}

/* an epsilon transition from a state to itself says nothing, but has to be put up with (selfeps=0: not drawn) */
static int eps_ok(unsigned from, unsigned to) { return from != to || sx_param("selfeps", 1); }
/* Draw an automaton.  The transitions are a strictly increasing sequence of codes, so each
 * set of transitions is drawn exactly once. neps: epsilon edges allowed. */
static void draw_aut(struct aut *a, unsigned n, unsigned maxe, unsigned nlab, int eps, int anystart) {
	unsigned per = nlab + (eps ? 1 : 0), total = n * n * per, prev = 0, i;
	a->n = n; a->ne = 0; a->hasstart = 1;
	a->start = anystart ? sx_choice("start", n + (anystart > 1)) : 0; if (a->start == n) { a->hasstart = 0; a->start = 0; }
	a->ends = 0;
	for (i = 0; i < n; i++) if (sx_choice("end", 2)) a->ends |= bit(i);
	for (i = 0; i < maxe; i++) {
		/* 0 = no more edges, otherwise code prev+k-1 */
		unsigned k = sx_choice("edge", total - prev + 1), code;
		if (k == 0) break;
		code = prev + k - 1; prev = code + 1;
		a->e[a->ne].from = code / (n * per); a->e[a->ne].to = (code / per) % n;
		a->e[a->ne].lab = code % per == nlab ? EPS : code % per; a->ne++;
		if (prev >= total) break;
	}
}
static void add_label(struct fsm *f, unsigned from, unsigned to, unsigned lab) {
	unsigned i, c;
	if (lab == EPS) { if (eps_ok(from, to)) sx_assert(fsm_addedge_epsilon(f, from, to), "fsm_addedge_epsilon failed"); return; }
	if (PAL[lab].n == 1 && PAL[lab].r[0].lo == 0 && PAL[lab].r[0].hi == 255) { sx_assert(fsm_addedge_any(f, from, to), "fsm_addedge_any failed"); return; }
	for (i = 0; i < PAL[lab].n; i++) for (c = PAL[lab].r[i].lo; c <= PAL[lab].r[i].hi; c++)
		sx_assert(fsm_addedge_literal(f, from, to, (char) c), "fsm_addedge_literal failed");
}
static struct fsm *build(const struct aut *a, const struct fsm_alloc *al) {
	struct fsm *f = fsm_new(al); unsigned i; fsm_state_t s;
	sx_assert(f != NULL, "fsm_new failed");
	for (i = 0; i < a->n; i++) { sx_assert(fsm_addstate(f, &s), "fsm_addstate failed"); sx_assert(s == i, "fsm_addstate numbering"); }
	if (a->hasstart) fsm_setstart(f, a->start);
	for (i = 0; i < a->n; i++) if (a->ends & bit(i)) fsm_setend(f, i, 1);
	for (i = 0; i < a->ne; i++) add_label(f, a->e[i].from, a->e[i].to, a->e[i].lab);
	return f;
}
struct wbuf { const unsigned char *p; unsigned n, i; };
static int wgetc(void *o) { struct wbuf *w = o; return w->i < w->n ? w->p[w->i++] : EOF; }
static int run_fsm(const struct fsm *f, const unsigned char *w, unsigned n) {
	struct wbuf b; fsm_state_t end; int r;
	b.p = w; b.n = n; b.i = 0;
	r = fsm_exec(f, wgetc, &b, &end, NULL);
	return r;
}
static void sx_word(unsigned char *w, unsigned n) { unsigned i; for (i = 0; i < n; i++) w[i] = sx_byte("w"); }
static const struct pal PAL_A[] = {
	{ 1, { { 'a', 'a' } } }, { 2, { { 63, 64 }, { 'a', 'b' } } }, { 1, { { 0, 255 } } }, { 2, { { 0, 0 }, { 255, 255 } } }, { 1, { { 'b', 'b' } } }
};
static void use_pal(const struct pal *p, unsigned n) { PAL = p; NPAL = n; }

/* ---- concrete automata read back from the library, or written by a harness as the
 * reference; simulated on symbolic words without branching on the word ---- */
#define XMAX 4096
typedef uint64_t xm;
/* idx=0: a set of states is a mask (n<=64); idx=1: the automaton is a DFA and a "set" is 1+state, 0 for none */
struct ext { unsigned n, start, ne, neps; int hasstart, idx; uint32_t col[1024]; xm cm[32]; xm ends; struct { uint16_t from, to; uint8_t eps, lo, hi; } e[XMAX]; };
static inline xm xbit(unsigned i) { return (xm) 1 << i; }
static void x_init(struct ext *x, unsigned n) { x->n = n; x->start = 0; x->ne = x->neps = 0; x->hasstart = 0; x->ends = 0; x->idx = 0; memset(x->cm, 0, sizeof x->cm); memset(x->col, 0, n * sizeof x->col[0]); }
/* colour bit 0: accepting; bits 1..15: end id number k-1 of the harness's list; bits 16..31: eager output number k-16 */
static void x_col(struct ext *x, unsigned s, uint32_t c) { unsigned k; x->col[s] |= c; if (c & 1) { if (s < 64) x->ends |= xbit(s); } if (s < 64) for (k = 1; k < 32; k++) if (c >> k & 1) x->cm[k] |= xbit(s); }
static void x_uncol(struct ext *x, unsigned s) { unsigned k; x->col[s] = 0; if (s < 64) { x->ends &= ~xbit(s); for (k = 1; k < 32; k++) x->cm[k] &= ~xbit(s); } }
static void x_end(struct ext *x, unsigned s) { x_col(x, s, 1); }
static void x_edge(struct ext *x, unsigned f, unsigned t, unsigned lo, unsigned hi) {
	sx_assert(x->ne < XMAX, "harness: too many edges");
	x->e[x->ne].from = f; x->e[x->ne].to = t; x->e[x->ne].eps = 0; x->e[x->ne].lo = lo; x->e[x->ne].hi = hi; x->ne++;
}
static void x_eps(struct ext *x, unsigned f, unsigned t) {
	sx_assert(x->ne < XMAX, "harness: too many edges");
	x->e[x->ne].from = f; x->e[x->ne].to = t; x->e[x->ne].eps = 1; x->e[x->ne].lo = x->e[x->ne].hi = 0; x->ne++; x->neps++;
}
static xm x_clo(const struct ext *x, xm s) {
	unsigned k, i;
	if (!x->neps) return s;
	for (k = 0; k < x->n && k < x->neps; k++) /* a path visits each epsilon edge at most once */
		for (i = 0; i < x->ne; i++) if (x->e[i].eps) s |= ((s >> x->e[i].from) & 1u) << x->e[i].to;
	return s;
}
static xm x_start(const struct ext *x) { return !x->hasstart ? 0 : x->idx ? (xm) x->start + 1 : x_clo(x, xbit(x->start)); }
static inline xm x__in(const struct ext *x, unsigned i, unsigned c) {
	return x->e[i].lo == 0 && x->e[i].hi == 255 ? 1 : x->e[i].lo == x->e[i].hi ? (xm) (c == x->e[i].lo) : (xm) ((c >= x->e[i].lo) & (c <= x->e[i].hi));
}
static xm x_step(const struct ext *x, xm s, unsigned c) { /* s and c may be symbolic */
	xm r = 0; unsigned i;
	if (x->idx) { for (i = 0; i < x->ne; i++) r |= ((xm) (s == (xm) x->e[i].from + 1) & x__in(x, i, c)) * ((xm) x->e[i].to + 1); return r; }
	for (i = 0; i < x->ne; i++) if (!x->e[i].eps) r |= (((s >> x->e[i].from) & 1u) & x__in(x, i, c)) << x->e[i].to;
	return x_clo(x, r);
}
static xm x_cstep(const struct ext *x, xm s, unsigned c) { /* s concrete, c may be symbolic */
	xm r = 0; unsigned i;
	if (x->idx) { for (i = 0; i < x->ne; i++) if (s == (xm) x->e[i].from + 1) r |= x__in(x, i, c) * ((xm) x->e[i].to + 1); return r; }
	for (i = 0; i < x->ne; i++) if (!x->e[i].eps && (s >> x->e[i].from & 1)) r |= x__in(x, i, c) << x->e[i].to;
	return x_clo(x, r);
}
static uint32_t x_acc(const struct ext *x, xm s) { /* colours of the set; s may be symbolic */
	unsigned i; uint32_t r = 0;
	if (x->idx) { for (i = 0; i < x->n; i++) if (x->col[i]) r |= (uint32_t) (s == (xm) i + 1) * x->col[i]; return r; }
	r = (s & x->ends) != 0;
	for (i = 1; i < 32; i++) if (x->cm[i]) r |= (uint32_t) ((s & x->cm[i]) != 0) << i;
	return r;
}
static unsigned x_word(const struct ext *x, const unsigned char *w, unsigned n) {
	xm s = x_start(x); unsigned i;
	for (i = 0; i < n; i++) s = x_step(x, s, w[i]);
	return x_acc(x, s) & 1;
}
static int x__lit(const struct fsm *f, fsm_state_t a, fsm_state_t b, char c, void *o) {
	struct ext *x = o; unsigned u = (unsigned char) c, i;
	(void) f;
	for (i = x->ne; i-- > 0; ) if (x->e[i].from == a && x->e[i].to == b && !x->e[i].eps && x->e[i].hi + 1 == u) { x->e[i].hi = u; return 1; }
	x_edge(x, a, b, u, u); return 1;
}
static int x__eps(const struct fsm *f, fsm_state_t a, fsm_state_t b, void *o) { (void) f; x_eps(o, a, b); return 1; }
static void x_of(struct ext *x, const struct fsm *f) {
	unsigned i; fsm_state_t s = 0;
	x_init(x, fsm_countstates(f));
	sx_assert(x->n <= 1024, "harness: too many states");
	x->idx = x->n > 64;
	x->hasstart = fsm_getstart(f, &s); x->start = s;
	if (x->hasstart) sx_assert(s < x->n, "start state out of range");
	for (i = 0; i < x->n; i++) if (fsm_isend(f, i)) x_end(x, i);
	sx_assert(fsm_walk_edges(f, x, x__lit, x__eps), "fsm_walk_edges failed");
	for (i = 0; i < x->ne; i++) sx_assert(x->e[i].from < x->n && x->e[i].to < x->n, "edge to a state that does not exist");
}
/* read back end ids and eager outputs too, as colours; every id must be one of the harness's, in ascending order, once */
static void x_ids(struct ext *x, const struct fsm *f, const fsm_end_id_t *ids, unsigned nids, const fsm_output_id_t *eos, unsigned neo) {
	unsigned i, k; size_t n, j; fsm_end_id_t b[40];
	for (i = 0; i < x->n; i++) {
		if (fsm_isend(f, i)) {
			n = fsm_endid_count(f, i);
			sx_assert(n <= nids, "more end ids on a state than exist");
			sx_assert(fsm_endid_get(f, i, n, b), "fsm_endid_get failed with a large enough buffer");
			if (n > 0) { fsm_end_id_t t[40]; sx_assert(!fsm_endid_get(f, i, n - 1, t), "fsm_endid_get accepted a short buffer"); }
			for (j = 0; j < n; j++) {
				if (j) sx_assert(b[j - 1] < b[j], "end ids not sorted or duplicated");
				for (k = 0; k < nids; k++) if (ids[k] == b[j]) break;
				sx_assert(k < nids, "an end id that was never set");
				x_col(x, i, 1u << (1 + k));
			}
		}
		n = fsm_eager_output_count(f, i);
		sx_assert(n <= neo, "more eager outputs on a state than exist");
		if (n) {
			sx_assert(fsm_eager_output_get(f, i, n, b), "fsm_eager_output_get failed with a large enough buffer");
			for (j = 0; j < n; j++) {
				if (j) sx_assert(b[j - 1] < b[j], "eager outputs not sorted or duplicated");
				for (k = 0; k < neo; k++) if (eos[k] == b[j]) break;
				sx_assert(k < neo, "an eager output that was never set");
				x_col(x, i, 1u << (16 + k));
			}
		}
	}
}
static void x_aut(struct ext *x, const struct aut *a) {
	unsigned i, k;
	x_init(x, a->n); x->hasstart = a->hasstart; x->start = a->start;
	for (i = 0; i < a->n; i++) if (a->ends & bit(i)) x_end(x, i);
	for (i = 0; i < a->ne; i++) {
		if (a->e[i].lab == EPS) { if (eps_ok(a->e[i].from, a->e[i].to)) x_eps(x, a->e[i].from, a->e[i].to); }
		else for (k = 0; k < PAL[a->e[i].lab].n; k++) x_edge(x, a->e[i].from, a->e[i].to, PAL[a->e[i].lab].r[k].lo, PAL[a->e[i].lab].r[k].hi);
	}
}
/* one formula over the whole word: both accept exactly the same prefixes */
static unsigned x_same(const struct ext *a, const struct ext *b, const unsigned char *w, unsigned L) {
	xm p = x_start(a), q = x_start(b); unsigned i, ok = x_acc(a, p) == x_acc(b, q);
	for (i = 0; i < L; i++) { p = x_step(a, p, w[i]); q = x_step(b, q, w[i]); ok &= x_acc(a, p) == x_acc(b, q); }
	return ok;
}
/* Language relations for words of any length.  The relation R of tuples of state sets that the
 * automata reach on equal words is computed with one representative byte per label class; that
 * R is closed under every byte is then one assertion over an unconstrained byte, decided by the
 * solver, and the colours are compared on every tuple of R.  The last automaton is the result
 * under test; want() gives the colours it must have from those of the others. */
static unsigned x_next(const struct ext *const *xs, unsigned k, unsigned char *rep) {
	unsigned i, j, n = 0; unsigned char m[257];
	memset(m, 0, sizeof m); m[0] = 1;
	for (j = 0; j < k; j++) for (i = 0; i < xs[j]->ne; i++) if (!xs[j]->e[i].eps) { m[xs[j]->e[i].lo] = 1; m[xs[j]->e[i].hi + 1] = 1; }
	for (i = 0; i < 256; i++) if (m[i]) rep[n++] = i;
	return n;
}
#define RMAX 3000
#define KMAX 5
static xm x__r[RMAX][KMAX]; static unsigned short x__suc[256]; static unsigned x_relsize;
static void x_rel(const struct ext *const *xs, unsigned k, uint32_t (*want)(const uint32_t *), uint32_t cmask, const char *msg) {
	unsigned char rep[256]; unsigned nr = x_next(xs, k, rep), nR = 1, i, j, l, t, ok = 1; unsigned char c = sx_byte("any"); uint32_t col[KMAX]; xm p[KMAX];
	for (t = 0; t < k; t++) x__r[0][t] = x_start(xs[t]);
	for (i = 0; i < nR; i++) {
		unsigned ns = 0, in = 0;
		for (t = 0; t < k; t++) col[t] = x_acc(xs[t], x__r[i][t]);
		sx_assert((want(col) & cmask) == (col[k - 1] & cmask), msg);
		for (l = 0; l < nr; l++) {
			for (t = 0; t < k; t++) p[t] = x_cstep(xs[t], x__r[i][t], rep[l]);
			for (j = 0; j < nR; j++) { for (t = 0; t < k; t++) if (x__r[j][t] != p[t]) break; if (t == k) break; }
			if (j == nR) { sx_assert(nR < RMAX, "harness: relation too large"); for (t = 0; t < k; t++) x__r[nR][t] = p[t]; nR++; }
			for (t = 0; t < ns; t++) if (x__suc[t] == j) break;
			if (t == ns) x__suc[ns++] = j;
		}
		for (t = 0; t < k; t++) p[t] = x_cstep(xs[t], x__r[i][t], c);
		for (l = 0; l < ns; l++) { unsigned one = 1; for (t = 0; t < k; t++) one &= p[t] == x__r[x__suc[l]][t]; in |= one; }
		ok &= in;
	}
	x_relsize = nR;
	sx_assert(ok, msg);
}
static uint32_t w_a(const uint32_t *c) { return c[0]; }
static uint32_t w_or(const uint32_t *c) { return c[0] | c[1]; }
static uint32_t w_and(const uint32_t *c) { return c[0] & c[1] & 1; }
static uint32_t w_sub(const uint32_t *c) { return c[0] & ~c[1] & 1; }
static uint32_t w_not(const uint32_t *c) { return ~c[0] & 1; }
static void x_equiv(const struct ext *a, const struct ext *x, const char *msg) { const struct ext *xs[2]; xs[0] = a; xs[1] = x; x_rel(xs, 2, w_a, ~0u, msg); }
static void x_lang(const struct ext *a, const struct ext *x, const char *msg) { const struct ext *xs[2]; xs[0] = a; xs[1] = x; x_rel(xs, 2, w_a, 1, msg); }
static void x_rel3(const struct ext *a, const struct ext *b, const struct ext *x, uint32_t (*w)(const uint32_t *), uint32_t cmask, const char *msg) { const struct ext *xs[3]; xs[0] = a; xs[1] = b; xs[2] = x; x_rel(xs, 3, w, cmask, msg); }
static int x_dfa(const struct ext *x) {
	unsigned i, j;
	if (x->neps || !x->hasstart) return 0;
	for (i = 0; i < x->ne; i++) for (j = 0; j < i; j++)
		if (x->e[i].from == x->e[j].from && x->e[i].lo <= x->e[j].hi && x->e[j].lo <= x->e[i].hi) return 0;
	return 1;
}
static xm x_reach(const struct ext *x, xm s) {
	unsigned k, i; xm o;
	do { o = s; for (i = 0; i < x->ne; i++) if (s >> x->e[i].from & 1) s |= xbit(x->e[i].to); } while (s != o);
	return s; (void) k;
}
static xm x_coreach(const struct ext *x, xm s) {
	unsigned i; xm o;
	do { o = s; for (i = 0; i < x->ne; i++) if (s >> x->e[i].to & 1) s |= xbit(x->e[i].from); } while (s != o);
	return s;
}
static unsigned x_eq(const struct ext *a, const struct ext *b) { /* same structure, state for state; the labels are compared for an unconstrained byte */
	unsigned i, j, k, c, ok = 1; static unsigned char te[64][64];
	if (a->n != b->n || a->hasstart != b->hasstart || (a->hasstart && a->start != b->start) || a->ends != b->ends || a->n > 64) return 0;
	memset(te, 0, sizeof te);
	for (k = 0; k < a->ne; k++) if (a->e[k].eps) te[a->e[k].from][a->e[k].to] |= 1;
	for (k = 0; k < b->ne; k++) if (b->e[k].eps) te[b->e[k].from][b->e[k].to] |= 2;
	for (i = 0; i < a->n; i++) for (j = 0; j < a->n; j++) if (te[i][j] == 1 || te[i][j] == 2) return 0;
	c = sx_byte("anylabel");
	for (i = 0; i < a->n; i++) {
		xm ra = 0, rb = 0;
		for (k = 0; k < a->ne; k++) if (!a->e[k].eps && a->e[k].from == i) ra |= x__in(a, k, c) << a->e[k].to;
		for (k = 0; k < b->ne; k++) if (!b->e[k].eps && b->e[k].from == i) rb |= x__in(b, k, c) << b->e[k].to;
		ok &= ra == rb;
	}
	return ok;
}
#define NO_LEAK(where) sx_assert(sx_live_allocs() == 0, "memory leaked by " where)

/* Draw a deterministic automaton over pairwise disjoint label classes 0..nlab-1 */
static void draw_dfa(struct aut *a, unsigned n, unsigned nlab, unsigned maxe, int anystart) {
	unsigned i, l;
	a->n = n; a->ne = 0; a->hasstart = 1; a->start = anystart ? sx_choice("start", n) : 0; a->ends = 0;
	for (i = 0; i < n; i++) if (sx_choice("end", 2)) a->ends |= bit(i);
	for (i = 0; i < n; i++) for (l = 0; l < nlab; l++) {
		unsigned t = a->ne < maxe ? sx_choice("to", n + 1) : 0;
		if (t) { a->e[a->ne].from = i; a->e[a->ne].to = t - 1; a->e[a->ne].lab = l; a->ne++; }
	}
}
/* disjoint label classes, with members in every word of the 256-bit label sets */
static const struct pal PAL_D[] = {
	{ 2, { { 'a', 'a' }, { 200, 255 } } }, { 4, { { 0, 0 }, { 63, 64 }, { 'b', 'b' }, { 127, 128 } } }, { 2, { { 1, 1 }, { 'c', 'c' } } }
};
/* number of Myhill-Nerode classes among the states of a DFA that are both reachable and useful */
static unsigned mn_classes(const struct ext *x, unsigned char *useful) {
	unsigned cls[64], n, i, k, r, ncls = 0, prev; unsigned char rep[256]; unsigned nr;
	xm u = x->hasstart ? x_reach(x, xbit(x->start)) & x_coreach(x, x->ends) : 0; static short to[64][256];
	n = x->n;
	{ const struct ext *xs[1]; xs[0] = x; nr = x_next(xs, 1, rep); }
	for (i = 0; i < n; i++) for (r = 0; r < nr; r++) {
		to[i][r] = -1;
		for (k = 0; k < x->ne; k++) if (x->e[k].from == i && x->e[k].lo <= rep[r] && rep[r] <= x->e[k].hi && (u >> x->e[k].to & 1)) to[i][r] = x->e[k].to;
	}
	/* initial classes by colour, refined until stable; states that are not useful are all -1 */
	for (i = 0; i < n; i++) { if (useful) useful[i] = u >> i & 1; cls[i] = 0; if (!(u >> i & 1)) continue;
		for (k = 0; k < i; k++) if ((u >> k & 1) && x->col[k] == x->col[i]) { cls[i] = cls[k]; break; }
		if (k == i) cls[i] = ncls++; }
	do {
		unsigned nc[64]; prev = ncls; ncls = 0;
		for (i = 0; i < n; i++) { nc[i] = 0; if (!(u >> i & 1)) continue;
			for (k = 0; k < i; k++) { if (!(u >> k & 1) || cls[k] != cls[i]) continue;
				for (r = 0; r < nr; r++) { int p = to[k][r], q = to[i][r]; if ((p < 0) != (q < 0) || (p >= 0 && cls[p] != cls[q])) break; }
				if (r == nr) { nc[i] = nc[k]; break; } }
			if (k == i) nc[i] = ncls++; }
		memcpy(cls, nc, sizeof nc);
	} while (ncls != prev);
	return ncls;
}
#endif
