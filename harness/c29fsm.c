#include "c29.h"
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include "libfsm/internal.h"
/* fsm(1) */
static const char *const A[] = {
	"0 -> 1 \"a\"; start: 0; end: 1;",
	"0 -> 0 \"a\"; 0 -> 1 \"b\"; start: 0; end: 1;",
	"0 -> 1 \"a\"; 0 -> 2 \"a\"; 1 -> 1 ?; 2 -> 0 \"b\"; start: 0; end: 1, 2;",
	"0 -> 1; 0 -> 2 \"a\"; 1 -> 2 \"b\"; 2 -> 0; start: 0; end: 2;",
	"0 -> 0 ?; start: 0; end: 0;",
	"0 -> 1 \"a\"; 0 -> 2 \"b\"; 2 -> 2 ?; 3 -> 1 \"a\"; start: 0; end: 1;",
	"0 -> 1 \"a\"; start: 0;",
	"0 -> 1 \"a\"; 1 -> 2 \"\\xff\"; start: 0; end: 1 = [3, 5], 2 = [5];",
	"0; start: 0; end: 0;",
	"0 -> 1 \"a\"; 0 -> 2 \"b\"; 1 -> 1 ?; 2 -> 0 ?; start: 0; end: 2;",
	"0 -> ;",
};
#define NA (sizeof A / sizeof *A)
enum op { O_NONE, O_COMPLETE, O_NOT, O_REV, O_DET, O_MIN, O_TRIM, O_EPS, O_CAT, O_OR, O_AND, O_SUB, O_EQ };
static const struct { const char *s; enum op o; } OP[] = { { "", O_NONE }, { "-t complete", O_COMPLETE }, { "-t complement", O_NOT }, { "-tinvert", O_NOT }, { "-t reverse", O_REV }, { "-t rev", O_REV }, { "-r", O_REV }, { "-t determinise", O_DET }, { "-t dfa", O_DET }, { "-t todfa", O_DET }, { "-d", O_DET },
	{ "-t min", O_MIN }, { "-t minimise", O_MIN }, { "-m", O_MIN }, { "-t trim", O_TRIM }, { "-t remove_epsilons", O_EPS }, { "-E", O_EPS }, { "-t cat", O_CAT }, { "-t concat", O_CAT }, { "-t union", O_OR }, { "-t intersect", O_AND }, { "-t subtract", O_SUB }, { "-t sub", O_SUB }, { "-t minus", O_SUB }, { "-t equals", O_EQ }, { "-t equal", O_EQ } };
#define NOP (sizeof OP / sizeof *OP)
enum { M_PRINT, M_EXEC, M_QUERY, M_EQ, M_ORDER } mode;
static const fsm_end_id_t IDS[] = { 3, 5 };
static enum op op; static struct fsm *Q[2]; static const char *cs; static unsigned nt, q; static unsigned char T[3][8]; static unsigned TL[3];
static struct ext X[2], R, Y, C, S;
static void x_rev(struct ext *r, const struct ext *x) { unsigned i; x_init(r, x->n + 1); r->hasstart = x->hasstart; r->start = x->n; for (i = 0; i < x->n; i++) if (x->col[i] & 1) x_eps(r, x->n, i); for (i = 0; i < x->ne; i++) if (x->e[i].eps) x_eps(r, x->e[i].to, x->e[i].from); else x_edge(r, x->e[i].to, x->e[i].from, x->e[i].lo, x->e[i].hi); if (x->hasstart) x_end(r, x->start); }
static void x_cat(struct ext *r, const struct ext *a, const struct ext *b) { unsigned i; x_init(r, a->n + b->n); r->hasstart = a->hasstart & b->hasstart; r->start = a->start;
	for (i = 0; i < a->ne; i++) if (a->e[i].eps) x_eps(r, a->e[i].from, a->e[i].to); else x_edge(r, a->e[i].from, a->e[i].to, a->e[i].lo, a->e[i].hi);
	for (i = 0; i < b->ne; i++) if (b->e[i].eps) x_eps(r, a->n + b->e[i].from, a->n + b->e[i].to); else x_edge(r, a->n + b->e[i].from, a->n + b->e[i].to, b->e[i].lo, b->e[i].hi);
	for (i = 0; i < a->n; i++) if (a->col[i] & 1) x_eps(r, i, a->n + b->start); for (i = 0; i < b->n; i++) if (b->col[i] & 1) x_end(r, a->n + i); }
/* the reference for the result; 0 if the library refuses the operation */
static struct fsm *lib(void) {
	struct fsm *a = fsm_clone(Q[0]), *b = Q[1] ? fsm_clone(Q[1]) : NULL;
	switch (op) {
	case O_COMPLETE: return fsm_complete(a, fsm_isany) == 1 ? a : NULL; case O_NOT: return fsm_complement(a) == 1 ? a : NULL; case O_REV: return fsm_reverse(a) == 1 ? a : NULL;
	case O_DET: return fsm_determinise(a) == 1 ? a : NULL; case O_MIN: return fsm_determinise(a) && fsm_minimise(a) ? a : NULL; case O_TRIM: return fsm_trim(a, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0 ? a : NULL;
	case O_EPS: return fsm_remove_epsilons(a) == 1 ? a : NULL; case O_CAT: return fsm_concat(a, b, NULL); case O_OR: return fsm_union(a, b, NULL); case O_AND: return fsm_intersect(a, b); case O_SUB: return fsm_subtract(a, b); default: return a;
	}
}
static uint32_t w_both(const uint32_t *c) { return c[0] & c[1] & 1; }
static uint32_t w_or3(const uint32_t *c) { return (c[0] | c[1]) & c[2] & 1; } static uint32_t w_and3(const uint32_t *c) { return c[0] & c[1] & c[2] & 1; } static uint32_t w_sub3(const uint32_t *c) { return c[0] & ~c[1] & c[2] & 1; } static uint32_t w_not3(const uint32_t *c) { return ~c[0] & c[2] & 1; }
static void x_set(struct ext *x, const char *s) { x_init(x, 1); x->hasstart = 1; x->start = 0; x_end(x, 0); if (!s) x_edge(x, 0, 0, 0, 255); else for (; *s; s++) x_edge(x, 0, 0, (unsigned char) *s, (unsigned char) *s); }
static int refs(void) {
	unsigned i; struct fsm *l;
	for (i = 0; i < 2; i++) if (Q[i]) { x_of(&X[i], Q[i]); }
	l = lib(); return l != NULL;
}
static void d_print(void) {
	struct fsm *f; const struct ext *xs[4]; int ids = op == O_NONE || op == O_COMPLETE || op == O_DET || op == O_MIN || op == O_TRIM || op == O_OR || op == O_EPS; unsigned i;
	if (!Q[0] || (op >= O_CAT && !Q[1])) { sx_assert(status != 0 && on == 0, "a file that cannot be read is not reported"); sx_reach("syntax"); return; }
	if (!refs()) { sx_assert(status != 0, "an operation that the library refuses is not reported"); sx_reach("refused"); return; }
	sx_assert(status == 0, "exit status"); f = printed();
	if (!cs) { if (op == O_DET || op == O_MIN) sx_assert(fsm_countstates(f) == 0 || fsm_all(f, fsm_isdfa), "what was printed is no DFA"); if (op == O_EPS) sx_assert(!fsm_has(f, fsm_hasepsilons), "what was printed has epsilon transitions"); if (op == O_MIN) { struct fsm *g = fsm_clone(f); sx_assert(fsm_determinise(g) && fsm_minimise(g) && fsm_countstates(g) == fsm_countstates(f), "what was printed is not minimal"); } }
	if (!cs && op == O_COMPLETE) sx_assert(fsm_all(f, fsm_iscomplete), "what was printed is not complete");
	if (!cs && op == O_NONE) sx_assert(fsm_countstates(f) == fsm_countstates(Q[0]), "what was printed has a different number of states");
	x_of(&Y, f); x_set(&S, cs);
	if (!cs && op == O_TRIM && Y.hasstart) { xm u = x_reach(&Y, xbit(Y.start)) & x_coreach(&Y, Y.ends); for (i = 0; i < Y.n; i++) sx_assert(i == Y.start || (u >> i & 1), "a state that is no use was printed after trimming"); }
	if (ids && !cs) { x_ids(&Y, f, IDS, 2, NULL, 0); for (i = 0; i < 2; i++) if (Q[i]) x_ids(&X[i], Q[i], IDS, 2, NULL, 0); }
	if (op == O_REV) { x_rev(&R, &X[0]); X[0] = R; } if (op == O_CAT) { x_cat(&R, &X[0], &X[1]); X[0] = R; }
	if (op == O_OR || op == O_AND || op == O_SUB) { xs[0] = &X[0]; xs[1] = &X[1]; xs[2] = &S; xs[3] = &Y; if (op == O_OR && !cs) { xs[2] = &Y; x_rel(xs, 3, w_or, ~0u, "the union printed is wrong"); } else x_rel(xs, 4, op == O_OR ? w_or3 : op == O_AND ? w_and3 : w_sub3, 1, "the automaton printed is wrong"); }
	else if (op == O_NOT) { xs[0] = &X[0]; xs[1] = &X[0]; xs[2] = &S; xs[3] = &Y; x_rel(xs, 4, w_not3, 1, "the complement printed is wrong"); }
	else if (!cs) { xs[0] = &X[0]; xs[1] = &Y; x_rel(xs, 2, w_a, ids ? ~0u : 1, "the automaton printed is wrong"); }
	else { xs[0] = &X[0]; xs[1] = &S; xs[2] = &Y; x_rel(xs, 3, w_both, 1, "the automaton printed is wrong"); }
	sx_reach("printed");
}
static void d_eq(void) {
	unsigned i; const struct ext *xs[3]; static int same; if (!Q[0] || !Q[1]) { sx_assert(status != 0, "a file that cannot be read is not reported"); sx_reach("syntax"); return; }
	same = fsm_equal(Q[0], Q[1]); sx_assert(status == (same == 1 ? 0 : 1), "exit status is not whether the two are equal"); (void) i; (void) xs; sx_assert(on == 0, "something is printed"); sx_reach(same == 1 ? "equal" : "different");
}
static void d_exec(void) {
	unsigned i; int all = 1; struct fsm *f; int dfa;
	if (!Q[0] || (op >= O_CAT && !Q[1])) { sx_assert(status != 0 && on == 0, "a file that cannot be read is not reported"); sx_reach("syntax"); return; }
	if (!refs()) { sx_assert(status != 0, "an operation that the library refuses is not reported"); sx_reach("refused"); return; }
	f = lib(); dfa = fsm_countstates(f) > 0 && fsm_all(f, fsm_isdfa); x_of(&Y, f);
	for (i = 0; i < nt; i++) all &= dfa ? x_word(&Y, T[i], TL[i]) : 0;
	sx_assert((status == 0) == all, "exit status is not whether every text matches"); sx_assert(on == 0, "something is printed"); sx_reach("executed");
}
static const char *const QN[] = { "isdfa", "dfa", "iscomplete", "hasend", "end", "accept", "hasaccept", "ambiguity", "hasambiguity", "hasnondeterminism", "hasepsilons", "epsilons", "count", "epsilonclosure", "requiredchars", "chars" };
static void d_query(void) {
	int want = -1; const char *s = QN[q]; unsigned i, j; char b[40]; size_t p = 0, n;
	if (!Q[0]) { sx_assert(status != 0 && on == 0, "a file that cannot be read is not reported"); sx_reach("syntax"); return; }
	x_of(&X[0], Q[0]);
	if (!strcmp(s, "count")) { n = sprintf(b, "%u\n", X[0].n); sx_assert(status == 0 && on == n && !memcmp(od, b, n), "the number of states printed is wrong"); sx_reach("count"); return; }
	if (!strcmp(s, "epsilonclosure")) {
		sx_assert(status == 0, "exit status");
		for (i = 0; i < X[0].n; i++) { xm c = x_clo(&X[0], xbit(i)); n = sprintf(b, "%u: ", i); for (j = 0; j < X[0].n; j++) if (c >> j & 1) n += sprintf(b + n, "%s%u", b[n - 1] == ' ' ? "" : " ", j); b[n++] = '\n'; sx_assert(p + n <= on && !memcmp(od + p, b, n), "the epsilon closure printed is wrong"); p += n; }
		sx_assert(p == on, "the epsilon closure printed is wrong"); sx_reach("closure"); return;
	}
	if (strstr(s, "chars")) {
		uint64_t m[4]; size_t k, count, at = 0; sx_assert(fsm_detect_required_characters(Q[0], 0, m, &count) == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "fsm_detect_required_characters failed");
		n = sprintf(b, "%u ", (unsigned) count); for (k = 0; k < 256; k++) if (m[k / 64] >> k % 64 & 1) { at++; n += k >= 32 && k < 127 ? sprintf(b + n, "%c", (int) k) : sprintf(b + n, "\\x%02x", (unsigned) k); } b[n++] = '\n';
		sx_assert(status == 0 && on == n && !memcmp(od, b, n) && at == count, "the required characters printed are wrong"); sx_reach("chars"); return;
	}
	if (strstr(s, "dfa")) want = x_dfa(&X[0]); else if (strstr(s, "end") || strstr(s, "accept")) want = X[0].ends != 0; else if (strstr(s, "epsilons")) want = X[0].neps != 0;
	else if (strstr(s, "complete")) { want = 1; for (i = 0; i < X[0].n; i++) { uint8_t t[256]; unsigned k; memset(t, 0, 256); for (j = 0; j < X[0].ne; j++) if (X[0].e[j].from == i && !X[0].e[j].eps) memset(t + X[0].e[j].lo, 1, X[0].e[j].hi - X[0].e[j].lo + 1); for (k = 0; k < 256; k++) want &= t[k]; } }
	else { want = 0; for (i = 0; i < X[0].ne; i++) for (j = 0; j < i; j++) if (X[0].e[i].from == X[0].e[j].from && !X[0].e[i].eps && !X[0].e[j].eps && X[0].e[i].lo <= X[0].e[j].hi && X[0].e[j].lo <= X[0].e[i].hi) want = 1; }
	sx_assert(status == !want && on == 0, "exit status is not what the query says"); sx_reach(want ? "yes" : "no");
}
static void d_order(void), d_usage(void);
static void done(void) { switch ((int) mode) { case 99: d_usage(); break; case M_PRINT: d_print(); break; case M_EXEC: d_exec(); break; case M_QUERY: d_query(); break; case M_EQ: d_eq(); break; case M_ORDER: d_order(); break; } }
static const char *const fn[] = { "f0", "f1", "f2" };
static const char *in0 = "";
static void files(unsigned n, int in) { unsigned i; for (i = 0; i < n; i++) { const char *s = A[sx_choice("automaton", NA)]; Q[i] = strcmp(s, A[NA - 1]) ? fsm_parse(sx_mem_reader(s, strlen(s)), NULL) : NULL; if (in) in0 = s; else { addfile(fn[i], s, strlen(s)); arg(fn[i]); } } show(); }
void h_op(void) {
	static const char *const L[] = { "-p", "-l fsm", "-pa", "-pc", "-p -X", "-pw" }; static const char *const U[] = { NULL, "a", "ab", "\xff""a" }; unsigned o = sx_choice("operation", NOP); int in;
	mode = M_PRINT; arg("fsm"); args(OP[o].s); op = OP[o].o; if (op == O_EQ) { mode = M_EQ; files(2, 0); run(in0, 0); return; }
	args(L[sx_choice("print", sx_param("L", 6))]); cs = U[sx_choice("charset", 4)]; if (cs) { arg("-U"); arg(cs); }
	in = op < O_CAT ? sx_choice("stdin", 2) : 0; files(op < O_CAT ? 1 : 2, in); run(in0, strlen(in0));
}
void h_exec(void) {
	static const unsigned char so[] = { 0, 2, 4, 10, 13, 19, 20 }; unsigned o = so[sx_choice("operation", sizeof so)], i, j, xf = sx_choice("files", 2); static const char *const tn[] = { "t0", "t1", "t2" };
	mode = M_EXEC; arg("fsm"); args(OP[o].s); op = OP[o].o; if (xf) arg("-x"); files(op < O_CAT ? 1 : 2, 0); nt = sx_choice("texts", sx_param("T", 3) + 1);
	for (i = 0; i < nt; i++) {
		TL[i] = nt > 1 ? (i == 0 ? 1 : sx_choice("length", 2)) : sx_choice("length", sx_param("L", 3) + 1);
		for (j = 0; j < TL[i]; j++) { T[i][j] = sx_byte("text"); if (!xf) sx_assume(T[i][j] != 0); }
		if (xf) { addfile(tn[i], T[i], TL[i]); arg(tn[i]); } else argn(T[i], TL[i]);
	}
	run("", 0);
}
void h_query(void) { mode = M_QUERY; q = sx_choice("query", sizeof QN / sizeof *QN); arg("fsm"); arg("-q"); arg(QN[q]); files(1, 0); if (strstr(QN[q], "chars")) sx_assume(Q[0] && fsm_all(Q[0], fsm_isdfa)); run("", 0); }
/* fsm(1): "Multiple transformations may be given, and are applied in the order given"; "Multiple queries may be given, and their results are anded together" */
static unsigned o1, o2;
static void d_order(void) {
	struct fsm *f; const struct ext *xs[2];
	if (!Q[0]) { sx_assert(status != 0, "a file that cannot be read is not reported"); return; }
	op = OP[o1].o; f = lib(); if (!f) return; Q[0] = f; op = OP[o2].o; f = lib(); if (!f) return;
	sx_assert(status == 0, "exit status"); x_of(&X[0], f); f = printed(); x_of(&Y, f); xs[0] = &X[0]; xs[1] = &Y; x_rel(xs, 2, w_a, 1, "transformations are not applied in the order given"); sx_reach("printed");
}
void h_order(void) { static const unsigned char so[] = { 1, 2, 4, 10, 13 }; mode = M_ORDER; arg("fsm"); o1 = so[sx_choice("first", 5)]; o2 = so[sx_choice("second", 5)]; args(OP[o1].s); args(OP[o2].s); arg("-p"); files(1, 0); run("", 0); }
/* wrong usage */
static int wanted;
static void d_usage(void) { sx_assert(wanted ? status == 0 : status != 0, wanted ? "exit status for help" : "wrong usage is accepted"); sx_assert(wanted || on == 0 || od[0] == 'u', "wrong usage, but something is printed"); sx_reach("usage"); }
void h_usage(void) {
	static const char *const U[] = { "-t nosuch f0", "-q nosuch f0", "-l nosuch f0", "-k nosuch f0", "-t union f0", "-t equal", "-t dfa -q isdfa f0", "-d -q isdfa f0", "-t equal -p f0 f0", "-t equals -l fsm f0 f0", "-W 3 f0", "-G 0 f0", "-G x f0", "nofile", "-Z f0", "-t union f0 nofile", "-x f0 nofile", "-t", "-p -l c -k nosuch f0", "-t concat f1 f0", "-t concat -U a f1 f0" };
	unsigned i = sx_choice("case", sizeof U / sizeof *U + 1); mode = 99; arg("fsm"); addfile("f0", A[0], strlen(A[0])); addfile("f1", A[6], strlen(A[6])); if (i < sizeof U / sizeof *U) args(U[i]); else { args("-h f0"); wanted = 1; } show(); run("", 0);
}
