#include "h.h"
/* Determinise: for every automaton drawn, and every word of up to L unconstrained bytes,
 * the result accepts the word iff the reference simulation of the original does. */
static void check(const struct ext *ref, struct fsm *f, unsigned L, int exec) {
	struct ext x; unsigned char w[16]; unsigned i;
	x_of(&x, f);
	sx_assert(fsm_all(f, fsm_isdfa), "result of fsm_determinise is not a DFA");
	sx_assert(!fsm_has(f, fsm_hasepsilons), "result of fsm_determinise has epsilon transitions");
	sx_assert(x_dfa(&x) || !x.hasstart || x.n == 0, "a state of the result has two successors for one byte");
	x_equiv(ref, &x, "fsm_determinise changed the language");
	if (exec) sx_word(w, L);
	if (exec && x.hasstart) for (i = 0; i <= L; i++) {
		int r = run_fsm(f, w, i);
		sx_assert(r == 0 || r == 1, "fsm_exec reports an error on a DFA");
		sx_assert(r == x_word(ref, w, i), "fsm_determinise changed the language (executed)");
		if (r) sx_reach("accepted"); else sx_reach("rejected");
	}
	sx_reach("checked");
}
static void go(int exec) {
	struct aut a; struct fsm *f; struct ext ref;
	use_pal(PAL_A, sx_param("labels", 2));
	draw_aut(&a, sx_param("N", 2), sx_param("E", 3), NPAL, 1, sx_param("anystart", 0));
	x_aut(&ref, &a);
	f = build(&a, NULL);
	sx_assert(fsm_determinise(f), "fsm_determinise failed");
	check(&ref, f, sx_param("L", 3), exec);
	fsm_free(f);
	NO_LEAK("fsm_determinise");
}
void h_det(void) { go(0); }
void h_det_exec(void) { go(1); }
/* two or three transitions whose label bytes are completely unconstrained */
void h_det_label(void) {
	struct fsm *f = fsm_new(NULL); struct ext ref; unsigned i, k = sx_param("K", 2); fsm_state_t s;
	for (i = 0; i < 4; i++) fsm_addstate(f, &s);
	x_init(&ref, 4); ref.hasstart = 1; ref.start = 0; x_end(&ref, 3); x_end(&ref, 1);
	fsm_setstart(f, 0); fsm_setend(f, 3, 1); fsm_setend(f, 1, 1);
	x_edge(&ref, 1, 0, 'x', 'x'); fsm_addedge_literal(f, 1, 0, 'x');
	x_edge(&ref, 2, 3, 'x', 'x'); fsm_addedge_literal(f, 2, 3, 'x');
	x_edge(&ref, 0, 2, 64, 200); for (i = 64; i <= 200; i++) fsm_addedge_literal(f, 0, 2, (char) i);
	for (i = 0; i < k; i++) {
		static const unsigned fr[3] = { 0, 1, 2 }, to[3] = { 1, 1, 3 };
		unsigned c = sx_byte("label");
		c = sx_fork(c);
		x_edge(&ref, fr[i], to[i], c, c); sx_assert(fsm_addedge_literal(f, fr[i], to[i], (char) c), "fsm_addedge_literal");
	}
	sx_assert(fsm_determinise(f), "fsm_determinise failed");
	check(&ref, f, sx_param("L", 3), 0);
	fsm_free(f);
	NO_LEAK("fsm_determinise");
}
/* the state limit: either the whole result or "limit reached", never anything else */
void h_det_limit(void) {
	struct aut a; struct fsm *f; struct ext ref; struct fsm_determinise_config cfg; enum fsm_determinise_with_config_res r;
	unsigned lim;
	use_pal(PAL_A, sx_param("labels", 2));
	draw_aut(&a, sx_param("N", 2), sx_param("E", 3), NPAL, 1, 0);
	x_aut(&ref, &a);
	lim = sx_choice("limit", sx_param("LIM", 6));
	f = build(&a, NULL);
	memset(&cfg, 0, sizeof cfg); cfg.state_limit = lim;
	r = fsm_determinise_with_config(f, &cfg);
	sx_assert(r == FSM_DETERMINISE_WITH_CONFIG_OK || r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED, "fsm_determinise_with_config: unexpected result");
	if (r == FSM_DETERMINISE_WITH_CONFIG_OK) {
		sx_reach("ok");
		check(&ref, f, sx_param("L", 2), 0);
		if (lim) sx_assert(fsm_countstates(f) <= lim + 1, "more states than the limit allows");
	} else {
		/* the limit may only be reported when something really needs that many states */
		struct fsm *g = build(&a, NULL); unsigned n0 = fsm_countstates(g), n1;
		sx_reach("limited");
		sx_assert(lim != 0, "state limit reported without a limit");
		sx_assert(fsm_determinise(g), "fsm_determinise failed"); n1 = fsm_countstates(g);
		sx_assert(n0 >= lim || n1 >= lim, "state limit reported though neither the NFA nor the DFA is that large");
		fsm_free(g);
	}
	fsm_free(f);
	NO_LEAK("fsm_determinise_with_config");
}
/* an automaton whose DFA has many more states: every limit */
void h_det_limit_blowup(void) {
	struct fsm *f = fsm_new(NULL), *g; struct ext ref; unsigned n = sx_param("N", 5), i, lim, k; struct fsm_determinise_config cfg; enum fsm_determinise_with_config_res r;
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0); fsm_setend(f, n - 1, 1);
	x_init(&ref, n); ref.hasstart = 1; ref.start = 0; x_end(&ref, n - 1);
#define E2(F, T, L) do { x_edge(&ref, F, T, L, L); fsm_addedge_literal(f, F, T, L); } while (0)
	E2(0, 0, 'a'); E2(0, 0, 'b');
	for (i = 0; i + 1 < n; i++) { k = i ? sx_choice("lab", 3) : 0; if (k != 1) E2(i, i + 1, 'a'); if (k != 0) E2(i, i + 1, 'b'); }
	k = sx_choice("from", n); i = sx_choice("to", n); E2(k, i, 'c');
	lim = n + sx_choice("limit", sx_param("LIM", 14));
	memset(&cfg, 0, sizeof cfg); cfg.state_limit = lim;
	g = fsm_clone(f);
	r = fsm_determinise_with_config(f, &cfg);
	sx_assert(r == FSM_DETERMINISE_WITH_CONFIG_OK || r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED, "fsm_determinise_with_config: unexpected result");
	if (r == FSM_DETERMINISE_WITH_CONFIG_OK) { check(&ref, f, 0, 0); sx_reach("ok"); }
	else { sx_assert(fsm_determinise(g), "fsm_determinise failed"); sx_assert(fsm_countstates(g) >= lim, "state limit reported though the DFA is smaller"); sx_reach("limited"); }
	fsm_free(f); fsm_free(g); NO_LEAK("fsm_determinise_with_config");
}
/* a large automaton: long chains (so that hash tables and bitmaps grow past one word) with
 * a few arbitrary extra transitions */
void h_det_big(void) {
	struct fsm *f; struct ext ref; unsigned n = sx_param("N", 60), i, k, x = sx_param("X", 2);
	f = fsm_new(NULL); sx_assert(f && fsm_addstate_bulk(f, n), "fsm_addstate_bulk");
	x_init(&ref, n); ref.hasstart = 1; ref.start = 0; fsm_setstart(f, 0);
	x_end(&ref, n - 1); x_end(&ref, n / 2); fsm_setend(f, n - 1, 1); fsm_setend(f, n / 2, 1);
	for (i = 0; i + 1 < n; i++) {
		unsigned lo = i % 3 == 2 ? 'a' : 'a' + i % 3, hi = i % 3 == 2 ? 'c' : lo, c;
		x_edge(&ref, i, i + 1, lo, hi);
		for (c = lo; c <= hi; c++) fsm_addedge_literal(f, i, i + 1, (char) c);
	}
	for (k = 0; k < x; k++) {
		unsigned from = sx_choice("from", n), to = sx_choice("to", n), c = sx_choice("lab", 3);
		if (c == 2) { if (from != to) { x_eps(&ref, from, to); fsm_addedge_epsilon(f, from, to); } }
		else { x_edge(&ref, from, to, 'a' + c, 'a' + c); fsm_addedge_literal(f, from, to, 'a' + c); }
	}
	sx_assert(fsm_determinise(f), "fsm_determinise failed");
	sx_assert(fsm_all(f, fsm_isdfa), "result of fsm_determinise is not a DFA");
	check(&ref, f, 0, 0);
	fsm_free(f);
	NO_LEAK("fsm_determinise");
}
