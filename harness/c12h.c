#include "h.h"
#include <errno.h>
#include <fsm/print.h>
/* What the hooks of fsm_print are given, in every output language: the ids of accepting states, each list complete, sorted, and none missing. */
static const unsigned SETS[] = { 0, 1, 2, 3, 6, 1 | 4, 7 }; static const fsm_end_id_t IDS[] = { 3, 9, 0x01000002 };
static unsigned want[8], got, gotc, conf, ncall, failat; static unsigned st_set[8]; static struct aut A; static int ambig; static struct fsm_options O; static int op;
static const enum fsm_print_lang L[] = { FSM_PRINT_C, FSM_PRINT_VMC, FSM_PRINT_LLVM, FSM_PRINT_GO, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_AWK, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM, FSM_PRINT_JSON, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_VMOPS_C, FSM_PRINT_API, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_H, FSM_PRINT_VMOPS_MAIN };
/* the set of ids in a list, which is sorted and without duplicates */
static unsigned setof(const struct fsm_state_metadata *m) {
	unsigned r = 0; size_t i; unsigned k;
	sx_assert(m != NULL, "a hook is called without the ids of the state");
	for (i = 0; i < m->end_id_count; i++) {
		for (k = 0; k < 3; k++) if (IDS[k] == m->end_ids[i]) break;
		sx_assert(k < 3, "a hook is given an id that no state has"); r |= 1u << k;
		sx_assert(i == 0 || m->end_ids[i - 1] < m->end_ids[i], "the ids given to a hook are not sorted");
	}
	return r;
}
static unsigned known(unsigned s, int earliest) { unsigned i, r = 0; for (i = 0; i < A.n; i++) if (A.ends >> i & 1) { if (st_set[i] == s || (earliest && (st_set[i] & -st_set[i]) == s)) r |= 1u << i; } return r; }
static int fails(void) { return ++ncall == failat ? -1 : 0; }
static int h_accept(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *lo, void *ho) { unsigned s = setof(m), k = known(s, ambig == AMBIG_EARLIEST); (void) lo; sx_assert(o->ambig == (enum fsm_ambig) ambig && ho == &op, "the hook is given other options"); sx_assert(k, "the accept hook is given ids that no accepting state has"); got |= k; fprintf(f, "x"); return fails(); }
static int h_comment(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *ho) { (void) o; sx_assert(ho == &op, "another opaque"); gotc |= known(setof(m), ambig == AMBIG_EARLIEST); sx_assert(known(setof(m), 1), "the comment hook is given ids that no accepting state has"); fprintf(f, "c"); return fails(); }
static int h_reject(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, void *lo, void *ho) { (void) o; (void) lo; (void) m; sx_assert(ho == &op, "another opaque"); fprintf(f, "r"); return fails(); }
static int h_conflict(FILE *f, const struct fsm_options *o, const struct fsm_state_metadata *m, const char *ex, void *ho) {
	unsigned s = setof(m), q = A.start, i, k = known(s, 0); (void) f; (void) o; sx_assert(ho == &op, "another opaque"); sx_assert(m->end_id_count > 1 && k, "a conflict is reported for ids that no accepting state has");
	if (ex) { for (; *ex; ex++) { for (i = 0; i < A.ne; i++) if (A.e[i].from == q && in_pal(A.e[i].lab, (unsigned char) *ex)) break; sx_assert(i < A.ne, "the example of a conflict does not match"); q = A.e[i].to; } sx_assert(k >> q & 1, "the example of a conflict leads to another state"); conf |= 1u << q; }
	else for (i = 0; i < A.n; i++) if (k >> i & 1) conf |= 1u << i;
	return fails();
}
void h_hooks(void) {
	struct fsm *f; struct fsm_hooks h; unsigned i, k, first = sx_param("first", 0), l = first + sx_choice("language", sx_param("last", 20) - first), need, r2, any = 0, multi = 0; FILE *w; int r; mask_t reach;
	static const struct pal P1[] = { { 1, { { 'a', 'a' } } }, { 1, { { 'b', 'c' } } } };
	use_pal(P1, sx_param("labels", 2)); draw_dfa(&A, sx_param("N", 2), NPAL, sx_param("E", 3), 1); f = build(&A, NULL);
	for (i = 0; i < A.n; i++) { st_set[i] = 0; if (A.ends >> i & 1) { st_set[i] = SETS[sx_choice("ids", sizeof SETS / sizeof *SETS)]; for (k = 3; k-- > 0; ) if (st_set[i] >> k & 1) sx_assert(fsm_endid_set(f, i, IDS[k]), "fsm_endid_set failed"); } }
	ambig = sx_choice("ambig", 4); ambig = ambig ? 1 << (ambig - 1) : 0; memset(&O, 0, sizeof O); O.ambig = ambig; O.io = (enum fsm_io) sx_choice("io", 3); O.comments = sx_choice("comments", 2); O.fragment = sx_choice("fragment", 2); O.prefix = "p"; sx_assume(L[l] != FSM_PRINT_GO || O.io != FSM_IO_GETC);
	memset(&h, 0, sizeof h); h.accept = h_accept; h.comment = h_comment; h.reject = sx_choice("reject", 2) ? h_reject : NULL; h.conflict = h_conflict; h.hook_opaque = &op;
	got = gotc = conf = ncall = 0; failat = sx_param("fails", 4) ? sx_choice("fail", sx_param("fails", 4)) : 0;
	{ static struct ext x; x_of(&x, f); reach = x_reach(&x, xbit(A.start)); }
	sx_allow_exit(1); sx_reach("printed"); w = sx_mem_writer(); errno = 0; r = fsm_print(w, f, &O, &h, L[l]);
	for (i = 0; i < A.n; i++) if (A.ends >> i & 1) { any |= 1u << i; if (st_set[i] & (st_set[i] - 1)) multi |= 1u << i; }
	if (failat && ncall >= failat) { sx_assert(r == -1, "a hook failed, and printing did not"); sx_assert(ncall == failat, "a hook is called after one failed"); }
	else if (ambig == AMBIG_ERROR && multi) { sx_assert(r == 1, "states with several ids are no conflict"); for (i = 0; i < A.n; i++) if (multi & reach & (1u << i)) sx_assert(known(st_set[i], 0) & conf, "a conflict is not reported"); sx_assert(!got && !gotc, "something is printed in spite of a conflict"); }
	else if (r == -1) { sx_assert(l > 4 && (l < 10 || l > 12), "an automaton is not printed"); sx_reach("refused"); } /* not every language has every option */
	else { sx_assert(r == 0 && !conf, "a conflict is reported where there is none"); 
		need = 0; for (i = 0; i < A.n; i++) if (reach & any & (1u << i)) need |= 1u << i;
		r2 = l <= 12; if (r2 && !(O.fragment && L[l] == FSM_PRINT_LLVM)) { sx_assert((got & need) == need, "the accept hook is not given the ids of an accepting state"); sx_reach("given"); } }
	sx_mem_close(w); fsm_free(f); NO_LEAK("printing");
}
