#include "h.h"
#include <fsm/capture.h>
#include <fsm/walk.h>
#include "libfsm/internal.h"
#include "libfsm/endids.h"
/* One allocation, whichever the solver picks, fails while an operation runs: it reports an error, or works without;
 * what the caller owns can still be released, and nothing else is left. */
static int anyaut; static struct aut A;
static struct fsm *shape(unsigned k) { /* small automata with the features operations treat specially */
	struct fsm *f; fsm_state_t i; unsigned n = k == 3 ? 6 : k == 5 ? 7 : 4; 
	if (anyaut) { f = build(&A, NULL); if (A.ends) for (i = 0; i < A.n; i++) if (fsm_isend(f, i)) sx_assert(fsm_endid_set(f, i, 5 + i % 3), "setup"); return f; }
	f = fsm_new(NULL); sx_assert(f && fsm_addstate_bulk(f, n), "setup");
	fsm_setstart(f, 0);
	for (i = 0; i + 1 < n; i++) sx_assert(fsm_addedge_literal(f, i, i + 1, 'a' + i % 2), "setup");
	fsm_setend(f, n - 1, 1);
	if (k == 1 || k == 2) { sx_assert(fsm_addedge_literal(f, 0, 0, 'a') && fsm_addedge_literal(f, 1, 3, 'b') && fsm_addedge_literal(f, 0, 2, 'a'), "setup"); fsm_setend(f, 2, 1); }
	if (k == 2 || k == 3) { sx_assert(fsm_addedge_epsilon(f, 0, 2) && fsm_addedge_epsilon(f, 2, 1) && fsm_addedge_epsilon(f, 1, 3), "setup"); }
	if (k == 4) { sx_assert(fsm_addedge_literal(f, 1, 2, 'x') && fsm_addedge_literal(f, 0, 2, 'y') && fsm_addedge_literal(f, 0, 3, 'z'), "setup"); fsm_setend(f, 2, 1); }
	if (k == 5) { n = 4; fsm_setend(f, 6, 0); fsm_setend(f, 3, 1); sx_assert(fsm_addedge_literal(f, 1, 5, 'x') && fsm_addedge_literal(f, 2, 4, 'y') && fsm_addedge_epsilon(f, 1, 6) && fsm_addedge_epsilon(f, 0, 4), "setup"); } /* states that lead nowhere */
	if (sx_param("ids", 1)) { fsm_setend(f, 1, 1); sx_assert(fsm_endid_set(f, n - 1, 7) && fsm_endid_set(f, 1, 5) && fsm_endid_set(f, 1, 6), "setup"); }
	if (sx_param("eager", 0)) sx_assert(fsm_eager_output_set(f, 1, 3) && fsm_eager_output_set(f, 2, 4), "setup");
	if (sx_param("capture", 0) && k != 2 && k != 3 && k != 5) sx_assert(fsm_capture_set_path(f, 0, 0, 2), "setup");
	return f;
}
enum { P_NEW, P_ADDSTATE, P_BULK, P_EDGE, P_ANY, P_EPS, P_EDGES, P_ENDID, P_ENDIDS, P_EAGER, P_CAP, P_CLONE, P_DET, P_REMEPS, P_MIN, P_TRIM, P_REV, P_COMPLETE, P_SHUFFLE, P_VACUUM, P_REMOVE, P_EQUAL, P_EMPTY, P_COMPLEMENT, P_UNION, P_CONCAT, P_INTERSECT, P_SUBTRACT, P_NOPS };
static const fsm_end_id_t many[] = { 9, 3, 3, 8, 1, 2, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20 };
static int answer; /* of a query */
static int perform(unsigned op, struct fsm **pf, struct fsm *g, struct fsm **ph) { /* 1: done, 0: reported a failure */
	struct fsm *f = *pf, *h = NULL; int r = -2; unsigned i; fsm_state_t s;
	answer = -2;
	switch (op) {
	case P_NEW: f = *pf = fsm_new(NULL); r = f != NULL; break;
	case P_ADDSTATE: for (r = 1, i = 0; r == 1 && i < 130; i++) r = fsm_addstate(f, &s); break;
	case P_BULK: r = fsm_addstate_bulk(f, 130); break;
	case P_EDGE: for (r = 1, i = 0; r == 1 && i < 20; i++) r = fsm_addedge_literal(f, 0, i % 4, 'c' + i); break;
	case P_ANY: r = fsm_addedge_any(f, 0, 2); break;
	case P_EPS: for (r = 1, i = 0; r == 1 && i < 16; i++) r = fsm_addedge_epsilon(f, i / 4, i % 4); break;
	case P_EDGES: for (r = 1, i = 0; r == 1 && i < 256; i += 3) r = fsm_addedge_literal(f, 1, (i * 7) % 4, (char) i); break;
	case P_ENDID: for (r = 1, i = 0; r == 1 && i < 40; i++) r = fsm_endid_set(f, i % 4, i * 7 % 40); break;
	case P_ENDIDS: r = fsm_endid_set_bulk(f, 1, 16, many, FSM_ENDID_BULK_APPEND) && fsm_endid_set_bulk(f, 0, 16, many, FSM_ENDID_BULK_REPLACE); break;
	case P_EAGER: for (r = 1, i = 0; r == 1 && i < 40; i++) r = fsm_eager_output_set(f, i % 4, i); break;
	case P_CAP: r = fsm_capture_set_path(f, 0, 0, 2) && fsm_capture_set_path(f, 3, 0, 1) && fsm_capture_set_path(f, 2, 1, 1); break;
	case P_CLONE: h = fsm_clone(f); r = h != NULL; break;
	case P_DET: r = fsm_determinise(f); break;
	case P_REMEPS: r = fsm_remove_epsilons(f); break;
	case P_MIN: r = fsm_determinise(f); if (r == 1) r = fsm_minimise(f); break;
	case P_TRIM: r = fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL); if (r >= 0) r = 1; else r = 0; break;
	case P_REV: r = fsm_reverse(f); break;
	case P_COMPLETE: r = fsm_complete(f, fsm_isany); break;
	case P_SHUFFLE: r = fsm_shuffle(f, 3); break;
	case P_VACUUM: r = fsm_vacuum(f); break;
	case P_REMOVE: r = fsm_removestate(f, anyaut ? 1 : 2); break;
	case P_EQUAL: answer = fsm_equal(f, g); r = answer == -1 ? 0 : 1; break;
	case P_EMPTY: answer = fsm_empty(f); r = answer == -1 ? 0 : 1; break;
	case P_COMPLEMENT: r = fsm_complement(f); break;
	case P_UNION: h = fsm_union(f, g, NULL); r = h != NULL; break;
	case P_CONCAT: h = fsm_concat(f, g, NULL); r = h != NULL; break;
	case P_INTERSECT: h = fsm_intersect(f, g); r = h != NULL; break;
	case P_SUBTRACT: h = fsm_subtract(f, g); r = h != NULL; break;
	default: sx_assert(0, "bad op");
	}
	*ph = h; return r;
}
static void same(struct fsm *a, struct fsm *b, unsigned op) { /* b, made although an allocation failed, is what a is */
	static struct ext X, Y; static const fsm_end_id_t ids[] = { 5, 6, 7 }; static const fsm_output_id_t eos[] = { 3, 4 }; fsm_state_t i;
	if (op != P_SHUFFLE) sx_assert(fsm_countstates(a) == fsm_countstates(b), "another number of states when an allocation failed");
	if (op == P_ADDSTATE || op == P_BULK) return;
	x_of(&X, a); x_of(&Y, b);
	if (op == P_ENDID || op == P_ENDIDS || op == P_EAGER) { for (i = 0; i < fsm_countstates(a); i++) sx_assert(fsm_endid_count(a, i) == fsm_endid_count(b, i) && fsm_eager_output_count(a, i) == fsm_eager_output_count(b, i), "ids missing when an allocation failed"); }
	else { x_ids(&X, a, ids, 3, eos, 2); x_ids(&Y, b, ids, 3, eos, 2); }
	x_equiv(&X, &Y, "another result when an allocation failed");
	sx_assert(fsm_countcaptures(a) == fsm_countcaptures(b), "captures lost when an allocation failed");
}
void h_op(void) {
	unsigned lo = sx_param("op", 0), op = lo + (sx_param("ops", 1) > 1 ? sx_choice("op", sx_param("ops", 1)) : 0), k = anyaut ? 0 : sx_choice("shape", sx_param("shapes", 6)), before, k2 = (k + 1) % 6; struct fsm *f, *g = NULL, *h = NULL, *f0, *g0 = NULL, *h0 = NULL; int r, want, inj;
	int two = op == P_EQUAL || op >= P_UNION, q;
	if (op == P_EQUAL && sx_choice("same", 2)) k2 = k;
	f = op == P_NEW ? NULL : shape(k); f0 = op == P_NEW ? NULL : shape(k); if (two) { g = shape(k2); g0 = shape(k2); }
	want = perform(op, &f0, g0, &h0); q = answer; if (anyaut) sx_assume(want == 1); else sx_assert(want == 1, "failed although every allocation succeeded");
	before = sx_live_allocs();
	sx_arm_alloc_failure(sx_param("max", 400));
	r = perform(op, &f, g, &h);
	inj = sx_disarm_alloc_failure();
	sx_assert(r == 0 || r == 1, "an undocumented result"); if (!inj) sx_assert(r == 1, "failed although every allocation succeeded");
	sx_reach(!inj ? "no failure" : r == 0 ? "reported" : "worked without");
	if (r == 1) {
		sx_assert(answer == q, "another answer when an allocation failed");
		if (op != P_NEW && op != P_EQUAL && op != P_EMPTY) same(h0 ? h0 : f0, h ? h : f, op);
	}
	if (op == P_CLONE || op == P_EQUAL || op == P_EMPTY || op == P_NEW) { if (r == 0) sx_assert(sx_live_allocs() == before, "the failed operation leaks"); }
	/* what the caller owns is still usable; the operands of a failed binary operation are not claimed to be */
	if (op < P_UNION) { if (f) { sx_assert(fsm_countstates(f) < 1000, "countstates"); fsm_free(f); } if (f0) fsm_free(f0); if (g) fsm_free(g); if (g0) fsm_free(g0); }
	if (h) fsm_free(h);
	if (h0) fsm_free(h0);
	sx_reach("checked"); if (op < P_UNION || r == 1) NO_LEAK("operation");
}
void h_any(void) { /* the operations on any small automaton */
	anyaut = 1;
	draw_aut(&A, sx_param("N", 3), sx_param("E", 2), sx_param("labels", 2), 1, 0);
	h_op();
}
