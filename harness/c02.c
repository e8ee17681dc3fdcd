#include "h.h"
/* Minimise: same language (colours included), and exactly as many states as there are
 * Myhill-Nerode classes of useful states. */
static const fsm_end_id_t IDS[] = { 1, 4294967295u }; static const fsm_output_id_t EOS[] = { 7 };
static void check(const struct ext *ref, struct fsm *f, int ids) {
	struct ext x; unsigned want;
	sx_assert(fsm_minimise(f), "fsm_minimise failed");
	x_of(&x, f); if (ids) x_ids(&x, f, IDS, 2, EOS, 1);
	sx_assert(fsm_all(f, fsm_isdfa), "result of fsm_minimise is not a DFA");
	if (x.n) sx_assert(x_dfa(&x), "result of fsm_minimise is not a DFA");
	x_equiv(ref, &x, "fsm_minimise changed the language or the ids");
	want = mn_classes(ref, NULL);
	sx_assert(x.n == want, x.n > want ? "fsm_minimise: two states are equivalent or useless" : "fsm_minimise: too few states");
	sx_reach("checked"); if (x.n < ref->n && x.n) sx_reach("merged");
}
void h_min(void) {
	struct aut a; struct ext ref; struct fsm *f;
	use_pal(PAL_D, sx_param("labels", 2));
	draw_dfa(&a, sx_param("N", 3), NPAL, sx_param("E", 99), sx_param("anystart", 0));
	x_aut(&ref, &a); f = build(&a, NULL);
	check(&ref, f, 0);
	fsm_free(f); NO_LEAK("fsm_minimise");
}
void h_min_ids(void) {
	struct aut a; struct ext ref; struct fsm *f; unsigned i; xm co;
	use_pal(PAL_D, sx_param("labels", 1));
	draw_dfa(&a, sx_param("N", 3), NPAL, sx_param("E", 99), 0);
	x_aut(&ref, &a); f = build(&a, NULL);
	co = x_coreach(&ref, ref.ends);
	for (i = 0; i < a.n; i++) {
		if (a.ends & bit(i)) {
			unsigned k = sx_choice("ids", 4);
			if (k & 1) { fsm_endid_set(f, i, IDS[0]); x_col(&ref, i, 2); }
			if (k & 2) { fsm_endid_set(f, i, IDS[1]); x_col(&ref, i, 4); }
		}
		/* an output on a state that cannot reach an end is trimmed away with it */
		if ((co >> i & 1) && sx_choice("eager", 2)) { fsm_eager_output_set(f, i, EOS[0]); x_col(&ref, i, 1u << 16); }
	}
	check(&ref, f, 1);
	fsm_free(f); NO_LEAK("fsm_minimise");
}
/* two transitions with unconstrained labels on top of a fixed DFA */
void h_min_label(void) {
	struct ext ref; struct fsm *f = fsm_new(NULL); unsigned i, c[2];
	fsm_addstate_bulk(f, 5); fsm_setstart(f, 0); fsm_setend(f, 3, 1); fsm_setend(f, 4, 1);
	x_init(&ref, 5); ref.hasstart = 1; ref.start = 0; x_end(&ref, 3); x_end(&ref, 4);
	c[0] = sx_byte("l0"); c[1] = sx_byte("l1");
	c[0] = sx_fork(c[0]); c[1] = sx_fork(c[1]);
	/* 1 and 2 are equivalent exactly when their labels are equal */
	x_edge(&ref, 0, 1, 'a', 'a'); x_edge(&ref, 0, 2, 'b', 'b'); x_edge(&ref, 1, 3, c[0], c[0]); x_edge(&ref, 2, 4, c[1], c[1]);
	fsm_addedge_literal(f, 0, 1, 'a'); fsm_addedge_literal(f, 0, 2, 'b'); fsm_addedge_literal(f, 1, 3, (char) c[0]); fsm_addedge_literal(f, 2, 4, (char) c[1]);
	(void) i;
	check(&ref, f, 0);
	fsm_free(f); NO_LEAK("fsm_minimise");
}
/* larger: a chain with a cycle length chosen, and arbitrary end marks among the last few */
void h_min_big(void) {
	struct ext ref; struct fsm *f = fsm_new(NULL); unsigned n = sx_param("N", 60), i, back, per, k;
	back = sx_choice("back", n); per = 1 + sx_choice("per", sx_param("P", 12)); k = sx_choice("extra", n);
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0);
	x_init(&ref, n); ref.hasstart = 1; ref.start = 0;
	for (i = 0; i < n; i++) if (i % per == 0) { fsm_setend(f, i, 1); x_end(&ref, i); }
	for (i = 0; i < n; i++) { unsigned t = i + 1 < n ? i + 1 : back; x_edge(&ref, i, t, 'a', 'b'); fsm_addedge_literal(f, i, t, 'a'); fsm_addedge_literal(f, i, t, 'b'); }
	x_edge(&ref, k, (k * 7) % n, 255, 255); fsm_addedge_literal(f, k, (k * 7) % n, (char) 255);
	check(&ref, f, 0);
	fsm_free(f); NO_LEAK("fsm_minimise");
}
