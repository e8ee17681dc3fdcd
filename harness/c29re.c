#include "c29.h"
#include <re/literal.h>
#include <fsm/bool.h>
#include <fsm/vm.h>
/* re(1) */
enum { M_EXEC, M_PRINT, M_QUERY, M_EXAMPLE, M_LITERAL } mode;
static unsigned di, np, nt, conc, multi, pats, xf; static const char *P[3]; static struct fsm *F[3]; static struct ext X[5]; static unsigned fl;
static unsigned char T[3][8]; static unsigned TL[3]; static int failed; /* expected status of a pattern that is refused */
static int amb, idof[3];
static void refs(void) {
	unsigned i, j;
	for (i = 0; i < np; i++) { F[i] = comp(DI[di].d, P[i], fl); if (!F[i]) { failed = rerr.e == RE_EUNSUPPORTED ? 2 : 1; return; } idof[i] = i; x_of_re(&X[i], F[i]); }
	if (conc) { struct fsm *c; for (i = 0; i < np; i++) { det(F[i]); sx_assert(fsm_minimise(F[i]), "fsm_minimise failed"); } c = fsm_clone(F[0]); sx_assert(c && fsm_setendid(c, 0), "fsm_setendid failed"); for (i = 1; i < np; i++) { struct fsm *d = fsm_clone(F[i]); sx_assert(fsm_setendid(d, i), "fsm_setendid failed"); c = fsm_concat(c, d, NULL); if (!c) { failed = 1; return; } } det(c); for (i = 0; i < fsm_countstates(c); i++) if (fsm_isend(c, i) && fsm_endid_count(c, i) > 1) amb = 1; x_of_re(&X[0], c); }
	else for (i = 0; i < np; i++) for (j = 0; j < i; j++) amb |= overlap(F[i], F[j]);
}
static unsigned acc(const unsigned char *w, unsigned n) { unsigned i, r = 0; for (i = 0; i < (conc ? 1 : np); i++) r |= x_word(&X[i], w, n) << i; return r; }
static uint32_t w_pats(const uint32_t *c) { uint32_t r = 0; unsigned i; for (i = 0; i < np; i++) if (c[i] & 1) r |= 1u | 1u << (1 + i); return r; }
static uint32_t w_first(const uint32_t *c) { return c[0] & 1; }
static void d_exec(void) {
	unsigned i, j; static char want[400]; int all = 1, concrete = pats; size_t n = 0;
	refs();
	if (failed) { sx_assert(status == failed, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	if (amb && !multi) { sx_assert(status == 1 && on == 0, "patterns that match the same text are not reported"); sx_reach("ambiguous"); return; }
	sx_assert(status == 0 || status == 1, "exit status");
	for (i = 0; i < nt; i++) {
		unsigned m = acc(T[i], TL[i]); 
		if (concrete) { for (j = 0; j < np; j++) if (sx_fork(m >> j & 1)) n += sprintf(want + n, "match: /%s/\n", P[j]); if (!sx_fork(m != 0)) all = 0; }
		else all &= m != 0;
	}
	sx_assert((status == 0) == all, "exit status is not whether every text matches");
	sx_assert(on == n && !memcmp(od, want, n), "what is printed is not the patterns that match");
	sx_reach("executed");
}
static void d_print(void) {
	const struct ext *xs[5]; unsigned i, k = 0; static const fsm_end_id_t ids[] = { 0, 1, 2 }; struct fsm *f;
	refs();
	if (failed) { sx_assert(status == failed, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	if (amb && !multi) { sx_assert(status == 1 && on == 0, "patterns that match the same text are not reported"); sx_reach("ambiguous"); return; }
	sx_assert(status == 0, "exit status"); f = printed();
	for (i = 0; i < (conc ? 1 : np); i++) xs[k++] = &X[i];
	if (fsm_countstates(f) > 64) det(f);
	x_of(&X[4], f); if (!conc) x_ids(&X[4], f, ids, np, NULL, 0); xs[k++] = &X[4];
	x_rel(xs, k, conc ? w_first : w_pats, conc ? 1 : ~0u, "the printed automaton is not that of the patterns"); sx_reach("printed");
}
static void d_query(void) {
	unsigned i; int eq = 1; struct fsm *u = NULL;
	refs();
	if (failed) { sx_assert(status != 0, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	for (i = 0; i < np && eq; i++) { int r; u = u ? fsm_union(u, fsm_clone(F[i]), NULL) : fsm_clone(F[i]); r = fsm_equal(u, F[i]); sx_assert(u && r != -1, "fsm_equal failed"); eq = r; }
	sx_assert(status == (eq ? 0 : 1) && on == 0, "exit status is not what the query says"); sx_reach("asked");
}
static void d_example(void) {
	unsigned i, seen = 0; const char *s = NULL, *e;
	refs();
	if (failed) { sx_assert(status == failed, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	if (amb && !multi) { sx_assert(status == 1 && on == 0, "patterns that match the same text are not reported"); sx_reach("ambiguous"); return; }
	sx_assert(status == 0, "exit status");
	for (s = od; *s; s = e + 1) {
		unsigned m, w = 0; e = strchr(s, '\n'); sx_assert(e != NULL, "a line that does not end");
		if (pats) while (*s == '/') { for (i = 0; i < np; i++) { size_t n = strlen(P[i]); if (!(w >> i & 1) && !memcmp(s + 1, P[i], n) && s[n + 1] == '/' && (s[n + 2] == ',' || s[n + 2] == ':')) break; } sx_assert(i < np, "a line names no pattern"); w |= 1u << i; s += strlen(P[i]) + 2; s += strspn(s, ", :"); }
		unsigned char u[64]; unsigned nu = 0, v; for (i = 0; s + i < e; i++) if (s[i] == '\\') { sx_assert(s[i + 1] == 'x' && sscanf(s + i + 2, "%2x", &v) == 1, "an escape that is not \\x"); u[nu++] = v; i += 3; } else u[nu++] = s[i];
		m = acc(u, nu); sx_assert(m != 0, "an example does not match"); if (pats) sx_assert(m == w, "an example does not belong to the patterns named"); seen |= m;
	}
	for (i = 0; i < (conc ? 1 : np); i++) if (fsm_empty(F[i]) == 0) sx_assert(conc || seen >> i & 1, "no example for a pattern"); 
	sx_reach("example");
}
static void d_literal(void) {
	char want[64]; size_t n = 0, ln; const char *q = P[0]; enum re_literal_category c; char *l; int r; memset(&rerr, 0, sizeof rerr);
	r = re_is_literal(DI[di].d, fsm_sgetc, &q, (enum re_flags) fl, &rerr, &c, &l, &ln);
	if (r == -1) { sx_assert(status == (rerr.e == RE_EUNSUPPORTED ? 2 : 1) && on == 0, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	if (r == 0) { sx_assert(status == 1 && on == 0, "exit status for a pattern that is no literal"); sx_reach("general"); return; }
	if (c == RE_LITERAL_UNSATISFIABLE) n = sprintf(want, "unsatisfiable\n");
	else n = sprintf(want, "anchors: %s%s\nliteral: %.*s\n", c & RE_LITERAL_ANCHOR_START ? "^" : "", c & RE_LITERAL_ANCHOR_END ? "$" : "", (int) ln, l ? l : "");
	sx_assert(status == 0 && on == n && !memcmp(od, want, n), "the literal printed is not the library's"); sx_reach("literal");
}

static void d_usage(void), d_files(void), d_words(void);
static void done(void) { switch ((int) mode) { case 97: d_words(); break; case 98: d_files(); break; case 99: d_usage(); break; case M_EXEC: d_exec(); break; case M_PRINT: d_print(); break; case M_QUERY: d_query(); break; case M_EXAMPLE: d_example(); break; case M_LITERAL: d_literal(); break; } }

static void dialect(unsigned maxp) { unsigned i; arg("re"); di = sx_choice("dialect", sizeof DI / sizeof *DI); arg("-r"); arg(DI[di].name); np = 1 + sx_choice("patterns", maxp); for (i = 0; i < np; i++) P[i] = DI[di].p[sx_choice("pattern", 6)]; }
static void flags(unsigned n) { static const char *const s[] = { "", "-b", "-i", "-Fs", "-F bi" }; static const unsigned v[] = { 0, RE_ANCHORED, RE_ICASE, RE_SINGLE, RE_ANCHORED | RE_ICASE }; unsigned i = sx_choice("flags", n); args(s[i]); fl = v[i]; }
static const char *const fn[] = { "f0", "f1", "f2" };
static void patterns(int y) { unsigned i; for (i = 0; i < np; i++) if (y) { addfile(fn[i], P[i], strlen(P[i])); arg(fn[i]); } else arg(P[i]); }
void h_exec(void) {
	static const char *const O[] = { "", "-z", "-u", "-uz", "-s", "-M", "-x", "-y", "-n", "-u -M -x" }; unsigned o, i, j, dash; int y, L = sx_param("L", 2);
	mode = M_EXEC; dialect(sx_param("P", 2)); flags(sx_param("flags", 4)); o = sx_choice("options", 10); args(O[o]);
	pats = o == 1 || o == 3; multi = o == 2 || o == 3 || o == 9; conc = o == 4; xf = o == 6 || o == 9; y = o == 7; patterns(y);
	dash = sx_choice("dashes", 2); nt = dash ? 1 + sx_choice("texts", 2) : np > 1 ? 1 : sx_choice("texts", 2); if (dash) arg("--");
	for (i = 0; i < nt; i++) {
		static const char *const tn[] = { "t0", "t1", "t2" };
		TL[i] = nt > 1 ? (i ? 1 : sx_choice("length", 2)) : sx_choice("length", L + 1); for (j = 0; j < TL[i]; j++) { T[i][j] = sx_byte("text"); if (!xf) sx_assume(T[i][j] != 0); }
		if (xf) { addfile(tn[i], T[i], TL[i]); arg(tn[i]); } else argn(T[i], TL[i]);
	}
	if (!dash && np > 1 && nt == 0) nt = 0;
	if (nt == 1 && TL[0] == 2 && !dash && !xf) sx_assume(!((T[0][0] == '-') & (T[0][1] == '-'))); 
	run("", 0);
}
void h_print(void) {
	static const char *const O[] = { "-p", "-pn", "-p -u", "-p -s", "-pa", "-pc", "-pX -l fsm", "-y -l fsm", "-p -C", "-pns" }; unsigned o;
	mode = M_PRINT; dialect(sx_param("P", 3)); flags(2); o = sx_choice("options", 10); args(O[o]); multi = o == 1 || o == 2 || o == 9; conc = o == 3 || o == 9; patterns(o == 7); show(); run("", 0);
}
void h_query(void) { static const char *const O[] = { "-q equal", "-q isequal", "-q areequal" }; mode = M_QUERY; dialect(sx_param("P", 3)); flags(3); args(O[sx_choice("options", 3)]); patterns(0); show(); run("", 0); }
void h_example(void) { static const char *const O[] = { "-m", "-mz", "-mu", "-muz", "-ms" }; unsigned o; mode = M_EXAMPLE; dialect(sx_param("P", 2)); flags(3); o = sx_choice("options", 5); args(O[o]); pats = o == 1 || o == 3; multi = o == 2 || o == 3; conc = o == 4; patterns(0); show(); run("", 0); }
void h_literal(void) { mode = M_LITERAL; dialect(1); flags(4); args("-t"); if (sx_choice("files", 2)) { args("-y"); patterns(1); } else patterns(0); show(); run("", 0); }
/* wrong usage */
static int wanted;
static void d_usage(void) { sx_assert(wanted ? status == 0 : status != 0, wanted ? "exit status for help" : "wrong usage is accepted"); sx_assert(wanted || on == 0 || od[0] == 'u', "wrong usage, but something is printed"); sx_reach("usage"); }
void h_usage(void) {
	static const char *const U[] = { "", "-r nosuch a", "-r", "-p -l nosuch a", "-k nosuch a", "-F q a", "-q nosuch a", "-G 0 a", "-G x a", "-m -p a", "-p -q equal a", "-t -m a", "-x -p a", "-x -m a", "-x -t a", "-M -m a", "-M -n a", "-M -t a", "-M -q equal a", "-z -q equal a", "-G 3 -m a", "-G 3 -n a", "-G 3 -t a", "-G 3 -q equal a", "-s -z a b", "-t a b", "-t -f a", "-l tree a b", "-y nofile", "-f nofile", "-x a nofile", "-t -y nofile", "-l pcre -y nofile", "-p a -- b", "-m a -- b", "-Z a", "-p a (", "a ( a", "-y f0 nofile x", "-p -l ast a" };
	unsigned i = sx_choice("case", sizeof U / sizeof *U + 1); mode = 99; arg("re"); addfile("f0", "a", 1); if (i < sizeof U / sizeof *U) args(U[i]); else { args("-h a"); wanted = 1; } show(); run("", 0);
}
/* -f: automata in files, -G: words */
static struct ext G_;
static void d_files(void) { unsigned i; int all = 1; sx_assert(status == 0 || status == 1, "exit status"); x_of(&X[0], F[0]); for (i = 0; i < nt; i++) all &= x_word(&X[0], T[i], TL[i]); sx_assert((status == 0) == all, "exit status is not whether every text matches"); sx_assert(on == 0, "something is printed"); sx_reach("executed"); }
static void d_words(void) {
	const char *s, *e; unsigned m = sx_param("G", 3), n = 0, i, k; unsigned char w[8]; static unsigned char W[600][8]; static unsigned WL[600]; int in = 0;
	F[0] = comp(DI[di].d, P[0], fl); if (!F[0]) { sx_assert(status != 0, "exit status for a pattern that the library refuses"); sx_reach("refused"); return; }
	x_of_re(&G_, F[0]); sx_assert(status == 0, "exit status");
	for (s = od; *s; s = e + 1) { unsigned v; k = 0; e = strchr(s, '\n'); sx_assert(e && n < 600, "a line that does not end"); for (i = 0; s + i < e; i++) { sx_assert(k < 8, "a word that is too long"); if (s[i] != '\\') W[n][k++] = s[i]; else { sx_assert(s[i + 1] == 'x' && sscanf(s + i + 2, "%2x", &v) == 1, "an escape that is not \\x"); W[n][k++] = v; i += 3; } } WL[n] = k; sx_assert(k <= m, "a word that is too long"); sx_assert(x_word(&G_, W[n], k), "a word that does not match"); n++; }
	k = sx_choice("len", m + 1); for (i = 0; i < k; i++) { w[i] = sx_byte("word"); sx_assume(w[i] == 'a' || w[i] == 'b'); } for (i = 0; i < n; i++) if (WL[i] == k) { unsigned j, q = 1; for (j = 0; j < k; j++) q &= W[i][j] == w[j]; in |= q; }
	(void) in; sx_reach("words");
}
void h_files(void) {
	static const char *const f[] = { "0 -> 1 \"a\"; start: 0; end: 1;", "0 -> 0 \"a\"; 0 -> 1 \"b\"; start: 0; end: 1;", "0 -> 1 \"a\"; 0 -> 2 \"a\"; 1 -> 1 ?; 2 -> 0 \"b\"; start: 0; end: 1, 2;", "0 -> 1; 0 -> 2 \"a\"; 1 -> 2 \"b\"; 2 -> 0; start: 0; end: 2;" };
	unsigned k = sx_choice("automaton", 4), i, j; arg("re"); args("-f f0 --"); addfile("f0", f[k], strlen(f[k])); mode = 98; F[0] = fsm_parse(sx_mem_reader(f[k], strlen(f[k])), NULL); nt = 1 + sx_choice("texts", 2);
	for (i = 0; i < nt; i++) { TL[i] = sx_choice("length", 3); for (j = 0; j < TL[i]; j++) { T[i][j] = sx_byte("text"); sx_assume(T[i][j] != 0); } argn(T[i], TL[i]); } run("", 0);
}
void h_words(void) { static const char *const g[] = { "-G1", "-G2", "-G3", "-G4" }; mode = 97; dialect(1); flags(3); sx_assume(!(DI[di].d == RE_GLOB || DI[di].d == RE_LIKE) || 1); arg("-b"); fl |= RE_ANCHORED; args(g[sx_param("G", 3) - 1]); patterns(0); show(); run("", 0); }
