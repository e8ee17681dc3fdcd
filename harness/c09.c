#include "h.h"
#include <errno.h>
/* Predicates, emptiness, equality, reachability. */
static struct ext x, y; static struct fsm *F; static unsigned P;
static unsigned covers(const struct aut *a, unsigned s, unsigned c) { unsigned i, r = 0; for (i = 0; i < a->ne; i++) if (a->e[i].from == s && a->e[i].lab != EPS) r |= in_pal(a->e[i].lab, c); return r; }
static int is_eps(const struct aut *a, unsigned i) { return a->e[i].lab == EPS && eps_ok(a->e[i].from, a->e[i].to); }
/* how many different states label c leads to, from the set s */
static unsigned targets(const struct aut *a, mask_t s, unsigned c, unsigned *edges) { mask_t t = 0; unsigned i, n = 0; *edges = 0; for (i = 0; i < a->ne; i++) if ((s >> a->e[i].from & 1) && a->e[i].lab != EPS && in_pal(a->e[i].lab, c)) t |= bit(a->e[i].to); for (i = 0; i < a->n; i++) n += t >> i & 1; for (i = 0; i < a->n; i++) { unsigned j; mask_t u = 0; if (!(s >> i & 1)) continue; for (j = 0; j < a->ne; j++) if (a->e[j].from == i && a->e[j].lab != EPS && in_pal(a->e[j].lab, c)) u |= bit(a->e[j].to); for (j = 0; j < a->n; j++) *edges += u >> j & 1; } return n; }
static int p_sel(const struct fsm *f, fsm_state_t s) { (void) f; return (P >> s & 1) ? 7 : 0; }
static unsigned seen; static unsigned nwalk, stopat;
static int w_state(const struct fsm *f, fsm_state_t s, void *o) { sx_assert(f == F && o == &seen, "fsm_walk_states: arguments"); sx_assert(!(seen >> s & 1), "fsm_walk_states: visited twice"); seen |= 1u << s; return ++nwalk != stopat; }
void h_preds(void) {
	struct aut a; unsigned s, i, c, start, any = 0, all; fsm_state_t st; mask_t r;
	use_pal(PAL_A, sx_param("labels", 3));
	draw_aut(&a, sx_param("N", 3), sx_param("E", 2), NPAL, 1, 0); if (sx_choice("no start", 2)) a.hasstart = 0; else a.start = a.n - 1;
	F = build(&a, NULL); x_of(&x, F);
	sx_assert(fsm_getstart(F, &st) == a.hasstart && (!a.hasstart || st == a.start), "fsm_getstart");
	sx_assert(fsm_countstates(F) == a.n, "fsm_countstates");
	all = 1;
	for (s = 0; s < a.n; s++) {
		unsigned in = 0, out = 0, eps = 0, det = 1, cec = 0, ce1 = 0, ce2 = 0, ed; mask_t cl = closure(&a, bit(s));
		for (i = 0; i < a.ne; i++) {
			if (a.e[i].lab == EPS ? is_eps(&a, i) : 1) { in |= a.e[i].to == s; out |= a.e[i].from == s; }
			if (is_eps(&a, i) && a.e[i].from == s) eps = 1;
		}
		for (c = 0; c < 256; c++) { cec += covers(&a, s, c); if (targets(&a, bit(s), c, &ed) > 1) det = 0; if (targets(&a, cl, c, &ed) > 1) ce1 = 1; if (ed > 1) ce2 = 1; }
		sx_assert(!!fsm_hasincoming(F, s) == in, "fsm_hasincoming");
		sx_assert(!!fsm_hasoutgoing(F, s) == out, "fsm_hasoutgoing");
		sx_assert(!!fsm_hasepsilons(F, s) == eps, "fsm_hasepsilons");
		{ unsigned lab = 0; for (i = 0; i < a.ne; i++) lab |= a.e[i].from == s && a.e[i].lab != EPS; sx_assert(!!fsm_epsilonsonly(F, s) == (eps && !lab), "fsm_epsilonsonly"); }
		sx_assert(!!fsm_iscomplete(F, s) == (cec == 256), "fsm_iscomplete");
		sx_assert(!!fsm_isdfa(F, s) == (a.hasstart && !eps && det), "fsm_isdfa");
		all &= a.hasstart && !eps && det; any |= a.hasstart && !eps && det;
		/* two states of the closure with the same label to the same state: counted or not */
		if (ce1) sx_assert(fsm_hasnondeterminism(F, s) == 1, "fsm_hasnondeterminism missed a label leading to two states");
		if (!ce2) sx_assert(fsm_hasnondeterminism(F, s) == 0, "fsm_hasnondeterminism: no label leads to two states");
		sx_assert(!!fsm_isend(F, s) == (a.ends >> s & 1), "fsm_isend");
	}
	sx_assert(!!fsm_all(F, fsm_isdfa) == all, "fsm_all"); sx_assert(!!fsm_has(F, fsm_isdfa) == any, "fsm_has");
	P = sx_choice("selected", 1u << a.n);
	for (c = s = 0; s < a.n; s++) c += P >> s & 1;
	sx_assert(fsm_count(F, p_sel) == c, "fsm_count"); sx_assert(!!fsm_has(F, p_sel) == (c > 0), "fsm_has"); sx_assert(!!fsm_all(F, p_sel) == (c == a.n), "fsm_all");
	for (s = 0; s < a.n; s++) {
		r = x_reach(&x, xbit(s));
		sx_assert(fsm_reachableany(F, s, p_sel) == ((r & P) != 0), "fsm_reachableany"); sx_assert(fsm_reachableall(F, s, p_sel) == ((r & ~P) == 0), "fsm_reachableall");
	}
	if (!a.hasstart) { errno = 0; i = fsm_empty(F); sx_assert(i == 1 || (i == -1u && errno == EINVAL), "fsm_empty without a start state"); }
	else { r = x_reach(&x, xbit(a.start)); sx_assert(fsm_empty(F) == !(r & a.ends), "fsm_empty"); }
	seen = nwalk = 0; stopat = sx_choice("stop", a.n + 1);
	sx_assert(fsm_walk_states(F, &seen, w_state) == !stopat, "fsm_walk_states: result"); sx_assert(nwalk == (stopat ? stopat : a.n), "fsm_walk_states: number of states");
	x_of(&y, F); sx_assert(x_eq(&x, &y), "a question changed the automaton");
	sx_reach("checked"); fsm_free(F); NO_LEAK("predicate");
}
/* every byte but one */
void h_missing(void) {
	struct fsm *f = fsm_new(NULL); unsigned c, how = sx_choice("targets", 3); unsigned char m = sx_byte("missing"), d = m + sx_choice("twice", 3) * 63;
	fsm_addstate_bulk(f, 4); fsm_setstart(f, 0);
	for (c = 0; c < 256; c++) if (sx_fork(c != m)) fsm_addedge_literal(f, 0, how == 0 ? 1 : how == 1 ? 1 + (c & 1) : 1 + c % 3, (char) c);
	sx_assert(!fsm_iscomplete(f, 0), "a state without a transition for one byte is complete"); sx_assert(fsm_isdfa(f, 0) && !fsm_hasnondeterminism(f, 0), "not a DFA");
	sx_assert(fsm_countedges(f) == 255, "fsm_countedges");
	fsm_addedge_literal(f, 0, 3, (char) m); sx_assert(fsm_iscomplete(f, 0), "a state with a transition for each byte is not complete"); sx_assert(fsm_isdfa(f, 0) && !fsm_hasnondeterminism(f, 0), "not a DFA");
	sx_assert(fsm_countedges(f) == 256, "fsm_countedges");
	fsm_addedge_literal(f, 0, 0, (char) d); sx_assert(!fsm_isdfa(f, 0) && fsm_hasnondeterminism(f, 0), "two transitions for one byte not noticed"); sx_assert(!fsm_all(f, fsm_isdfa), "fsm_all");
	sx_reach("checked"); fsm_free(f); NO_LEAK("predicate");
}
/* 1 if the two languages are equal, for words of any length */
static int same_lang(const struct ext *a, const struct ext *b) {
	const struct ext *xs[2]; unsigned char rep[256]; unsigned nr, nR = 1, i, j, l; xm p, q; xs[0] = a; xs[1] = b; nr = x_next(xs, 2, rep);
	x__r[0][0] = x_start(a); x__r[0][1] = x_start(b);
	for (i = 0; i < nR; i++) {
		if ((x_acc(a, x__r[i][0]) ^ x_acc(b, x__r[i][1])) & 1) return 0;
		for (l = 0; l < nr; l++) { p = x_cstep(a, x__r[i][0], rep[l]); q = x_cstep(b, x__r[i][1], rep[l]);
			for (j = 0; j < nR; j++) if (x__r[j][0] == p && x__r[j][1] == q) break;
			if (j == nR) { x__r[nR][0] = p; x__r[nR][1] = q; nR++; } }
	}
	return 1;
}
void h_equal(void) {
	struct aut a, b; struct fsm *f, *g; static struct ext r, s, r2, s2; int e, want; unsigned n = sx_param("N", 2), E = sx_param("E", 2), ns = sx_param("nostart", 0);
	use_pal(PAL_A, sx_param("labels", 2));
	draw_aut(&a, n, E, NPAL, 1, 0); if (ns && sx_choice("no start", 2)) a.hasstart = 0;
	draw_aut(&b, sx_param("M", n), sx_param("F", E), NPAL, 1, 0); if (ns && sx_choice("no start", 2)) b.hasstart = 0;
	x_aut(&r, &a); x_aut(&s, &b); f = build(&a, NULL); g = build(&b, NULL); x_of(&r2, f); x_of(&s2, g);
	want = same_lang(&r, &s);
	errno = 0; e = fsm_equal(f, g);
	if (!a.hasstart || !b.hasstart) sx_assert((e == -1 && errno == EINVAL) || e == want, "fsm_equal without a start state");
	else { if (want) sx_assert(e == 1, "equal languages reported as different"); else sx_assert(e == 0, "different languages reported as equal"); }
	/* the verdict of the reference covers every byte */
	if (want) x_lang(&r, &s, "harness: reference");
	x_of(&x, f); sx_assert(x_eq(&r2, &x), "fsm_equal changed its argument"); x_of(&x, g); sx_assert(x_eq(&s2, &x), "fsm_equal changed its argument");
	sx_reach("checked"); fsm_free(f); fsm_free(g); NO_LEAK("fsm_equal");
}
void h_equal_label(void) {
	struct fsm *f = fsm_new(NULL), *g = fsm_new(NULL); static const unsigned char LB[] = { 0, 64, 255, 120, 65 }; unsigned char l = sx_byte("label"), m = LB[sx_choice("label2", 5)]; int e; unsigned shape = sx_choice("shape", 3);
	fsm_addstate_bulk(f, 3); fsm_setstart(f, 0); fsm_setend(f, 2, 1); fsm_addedge_literal(f, 0, 1, (char) l); fsm_addedge_literal(f, 1, 2, 'x');
	fsm_addstate_bulk(g, 3); fsm_setstart(g, 2); fsm_setend(g, 0, 1); fsm_addedge_literal(g, 2, 1, (char) l); fsm_addedge_literal(g, 1, 0, 'x');
	if (shape == 0) fsm_addedge_literal(g, 2, 1, 64); 
	if (shape == 1) fsm_addedge_literal(g, 1, 0, (char) m);
	if (shape == 2) fsm_addedge_literal(f, 2, 2, (char) m);
	e = fsm_equal(f, g);
	sx_assert(e == (shape == 0 ? l == 64 : shape == 1 ? m == 'x' : 0), "fsm_equal");
	e = fsm_equal(g, f); sx_assert(e == (shape == 0 ? l == 64 : shape == 1 ? m == 'x' : 0), "fsm_equal is not symmetric");
	sx_assert(fsm_equal(f, f) == 1, "fsm_equal: an automaton and itself");
	sx_reach("checked"); fsm_free(f); fsm_free(g); NO_LEAK("fsm_equal");
}
/* deep and wide automata: reachability over long chains and fans */
void h_big(void) {
	struct fsm *f = fsm_new(NULL); unsigned n = sx_param("N", 200), i, shape = sx_choice("shape", 3), at = sx_choice("at", 5) * (n - 1) / 4; unsigned char l = sx_byte("label");
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0);
	for (i = 0; i + 1 < n; i++) switch (shape) {
	case 0: if (i + 1 == at) fsm_addedge_literal(f, i, i + 1, (char) l); else fsm_addedge_literal(f, i, i + 1, 'a'); break;
	case 1: fsm_addedge_literal(f, 0, i + 1, (char) i); break;
	case 2: fsm_addedge_epsilon(f, i, i + 1); fsm_addedge_epsilon(f, n - 1, i); break;
	}
	sx_assert(fsm_empty(f) == 1, "an automaton without accepting states is empty"); sx_assert(fsm_reachableall(f, 0, fsm_hasepsilons) == (shape == 2), "fsm_reachableall");
	fsm_setend(f, at, 1); sx_assert(fsm_empty(f) == 0, "an accepting state can be reached"); sx_assert(fsm_reachableany(f, n - 1, fsm_isend) == (at == n - 1 || shape == 2), "fsm_reachableany");
	sx_assert(fsm_count(f, fsm_isend) == 1, "fsm_count"); sx_assert(fsm_countedges(f) == (shape == 2 ? 0 : n - 1), "fsm_countedges");
	sx_assert(!fsm_hasincoming(f, 0) == (shape != 2) && fsm_hasincoming(f, n - 1), "fsm_hasincoming");
	sx_reach("checked"); fsm_free(f); NO_LEAK("predicate");
}
