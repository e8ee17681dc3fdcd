#include "c29.h"
#include <re/literal.h>
#include <re/strings.h>
static const fsm_end_id_t IDS[] = { 0, 1, 2, 3 };
#define NIDS 4
#include "fsmtext.h"
/* rx(1) */
static struct line { const char *s; enum re_dialect d; unsigned id; } L[48]; static unsigned nl, fl, limit; static int strict, multi, quiet, unanch; static const char *cs; static unsigned many;
static struct ext R, S, Y, T;
static void join(struct ext *r, const struct ext *x, uint32_t c) { /* the union; accepting states of x get colours c as well */
	unsigned i, b = r->n; sx_assert(b + x->n <= 64, "harness: too many states"); for (i = 0; i < x->n; i++) { r->n++; r->col[b + i] = 0; if (x->col[i] & 1) x_col(r, b + i, x->col[i] | c); }
	for (i = 0; i < x->ne; i++) if (x->e[i].eps) x_eps(r, b + x->e[i].from, b + x->e[i].to); else x_edge(r, b + x->e[i].from, b + x->e[i].to, x->e[i].lo, x->e[i].hi);
	if (x->hasstart) x_eps(r, r->start, b + x->start);
}
static uint32_t w_in(const uint32_t *c) { return c[1] & 1 ? c[0] : 0; }
static int ambiguous(void) {
	static xm a[2000], b[2000]; const struct ext *xs[2] = { &R, &S }; unsigned n = 1, i, l, j; unsigned char rep[256]; unsigned nr = x_next(xs, 2, rep);
	a[0] = x_start(&R); b[0] = x_start(&S);
	for (i = 0; i < n; i++) { uint32_t c = x_acc(&R, a[i]) & ~1u; if (x_acc(&S, b[i]) && (c & (c - 1))) return 1;
		for (l = 0; l < nr; l++) { xm p = x_cstep(&R, a[i], rep[l]), q = x_cstep(&S, b[i], rep[l]); for (j = 0; j < n; j++) if (a[j] == p && b[j] == q) break; if (j == n) { sx_assert(n < 2000, "harness: relation too large"); a[n] = p; b[n] = q; n++; } } }
	return 0;
}
static int usage_, wanted;
static void done(void) {
	if (usage_) { sx_assert(wanted ? status == 0 : status != 0, wanted ? "exit status for help" : "wrong usage is accepted"); sx_reach("usage"); return; }
	{
	struct re_strings *g[4] = { 0 }; unsigned i, ngen = 0; static char dec[800]; size_t nd = 0, dn = 0; const struct ext *xs[3]; const char *dd = NULL;
	x_init(&R, 1); R.hasstart = 1; R.start = 0;
	for (i = 0; i < nl; i++) {
		enum re_literal_category c; char *l; size_t n; int r; const char *q = L[i].s; fsm_end_id_t id = L[i].id; memset(&rerr, 0, sizeof rerr);
		if (L[i].d == RE_LITERAL) { r = 1; l = (char *) L[i].s; n = strlen(l); c = unanch ? RE_LITERAL_UNANCHORED : RE_LITERAL_ANCHOR_BOTH; }
		else { r = re_is_literal(L[i].d, fsm_sgetc, &q, (enum re_flags) fl, &rerr, &c, &l, &n); if (r == 1 && c != RE_LITERAL_UNSATISFIABLE && n > 0 && (c & RE_LITERAL_ANCHOR_END) && l[n - 1] == '\n') n--; }
		if (r == -1 || (r == 1 && c == RE_LITERAL_UNSATISFIABLE)) { if (strict && rerr.e != RE_EUNSUPPORTED) { sx_assert(status != 0 && on == 0, "strict mode accepts a pattern that is refused"); sx_reach("strict"); return; } nd += sprintf(dec + nd, "%s\n", L[i].s); continue; }
		if (r == 1 && (n > 0 || L[i].d == RE_LITERAL)) { unsigned k, out = 0; if (cs && L[i].d != RE_LITERAL) for (k = 0; k < n; k++) if (!strchr(cs, l[k])) out = 1;
			if (out) { if (strict) { sx_assert(status != 0 && on == 0, "strict mode accepts a pattern that is refused"); sx_reach("strict"); return; } nd += sprintf(dec + nd, "%s\n", L[i].s); continue; }
			k = (c & RE_LITERAL_ANCHOR_START ? 1 : 0) | (c & RE_LITERAL_ANCHOR_END ? 2 : 0); if (!g[k]) g[k] = re_strings_new(); sx_assert(re_strings_add_raw(g[k], l, n, &id), "re_strings_add_raw failed"); continue; }
		if (ngen == limit) { nd += sprintf(dec + nd, "%s\n", L[i].s); continue; }
		ngen++; { struct fsm *f = comp(L[i].d, L[i].s, fl); sx_assert(f != NULL, "re_comp fails"); det(f); fsm_minimise(f); x_of(&T, f); join(&R, &T, 1u << (1 + id)); }
	}
	for (i = 0; i < 4; i++) if (g[i]) { struct fsm *f = re_strings_build(g[i], NULL, (i & 1 ? RE_STRINGS_ANCHOR_LEFT : 0) | (i & 2 ? RE_STRINGS_ANCHOR_RIGHT : 0)); x_of(&T, f); x_ids(&T, f, IDS, 4, NULL, 0); join(&R, &T, 0); }
	for (i = 0; i < (unsigned) ncf; i++) if (cf_[i].w) { fflush(cf_[i].w); dd = sx_mem_data(cf_[i].w, &dn); }
	sx_assert(dd && dn == nd && !memcmp(dd, dec, nd), "the list of declined patterns is wrong");
	x_init(&S, 1); S.hasstart = 1; x_end(&S, 0); if (cs) for (i = 0; cs[i]; i++) x_edge(&S, 0, 0, (unsigned char) cs[i], (unsigned char) cs[i]); else x_edge(&S, 0, 0, 0, 255);
	if (!multi && ambiguous()) { sx_assert(status != 0 && on == 0, "patterns with different ids that match the same text are not reported"); sx_reach("ambiguous"); return; }
	sx_assert(status == 0, "exit status");
	if (quiet) { sx_assert(on == 0, "quiet, but something is printed"); sx_reach("quiet"); return; }
	ft_read(&Y, od, 64); Y.n = 64; xs[0] = &R; xs[1] = &S; xs[2] = &Y; x_rel(xs, 3, w_in, ~0u, "the automaton printed is not that of the patterns with their ids"); sx_reach("printed");
	}
}
static const char *const DP[][8] = {
	{ "ab", "^b", "a$", "^ab$", "a|b", "^[ab]c$", "(", "$a" }, { "ab", "^b", "a", "^ab$", "a|c", "", "[", "^a?$" }, { "a*", "?b", "ab", "b", "*", "", "c", "a?" }, { "a%", "_b", "ab", "b", "%", "", "c", "a_" }, { "a", "ab", "b", "aa", "A", "", "c", "(" }, { "a%", "(a|b)_", "b+", "_", "(", "a{2}", "ab", "" } };
static const char *const fn[2][6] = { { "f0.pcre", "f0.native", "f0.glob", "f0.like", "f0.literal", "f0.sql" }, { "f1.pcre", "f1.native", "f1.glob", "f1.like", "f1.literal", "f1.sql" } };
static char body[2][600]; static unsigned nfile;
static void lines(unsigned k, unsigned d, unsigned n, unsigned ext) { unsigned i; for (i = 0; i < n; i++) { L[nl].s = DP[d][sx_choice("pattern", 8)]; L[nl].d = DI[d].d; L[nl].id = many ? k : i; strcat(body[k], L[nl].s); strcat(body[k], "\n"); nl++; }
	{ size_t m = strlen(body[k]); if (m > 1 && body[k][m - 2] != '\n' && sx_choice("newline", 2)) m--; addfile(fn[k][ext], body[k], m); } }
static void start(void) { arg("rx"); args("-l fsm -d declined"); addfile("declined", "", 0); limit = 1000; }
/* one file: a pattern's id is its line */
void h_one(void) {
	static const char *const O[] = { "", "-u", "-F i -u", "-F b -u", "-i", "-i -u", "-n 1 -u", "-x -u", "-q", "-t -q", "-Q -v -u", "-X -a -u" }; unsigned o, d;
	start(); d = sx_choice("dialect", 6); arg("-r"); arg(DI[d].name); o = sx_choice("options", 12); args(O[o]);
	fl = o == 2 ? RE_ICASE : o == 3 ? RE_ANCHORED : 0; strict = o == 4 || o == 5; multi = o != 0 && o != 4 && o != 8; if (o == 6) limit = 1; unanch = o == 7; quiet = o == 8 || o == 9;
	lines(0, d, sx_choice("patterns", sx_param("P", 2) + 1), 0); arg(fn[0][0]); show(); run("", 0);
}
/* two files: a pattern's id is its file; the dialect by the file's name */
void h_two(void) { unsigned d, e, o, byname; start(); many = 1; d = sx_choice("dialect", 6); e = sx_choice("dialect", 6); byname = d != e; arg("-r"); arg(byname ? "native" : DI[d].name); if (byname) arg("-s"); o = sx_choice("options", 2); multi = o; if (o) arg("-u"); lines(0, d, sx_choice("patterns", sx_param("P", 2) + 1), d); lines(1, e, 1, e); arg(cf_[1].name); arg(cf_[2].name); show(); run("", 0); }
/* more patterns than the lists of them have room for at first */
void h_many(void) {
	static const char *const C = "abcdefghijklmnopqrstuvwxyz0123456789"; static char t[48][12]; unsigned k, n, i, m = sx_param("N", 34); start(); many = 1; multi = 1; args("-u -r pcre"); k = sx_choice("kind", 6); if (k == 4) { args("-F b"); fl = RE_ANCHORED; } n = m - sx_choice("fewer", 2) * 17; L[nl].s = "^ab$"; L[nl].d = RE_PCRE; L[nl++].id = 0; addfile(fn[0][0], "^ab$", 4);
	for (i = 0; i < n; i++) { unsigned x = C[i]; switch (k) { case 0: sprintf(t[i], "%c", x); break; case 1: sprintf(t[i], "^%c", x); break; case 2: sprintf(t[i], "%c$", x); break; case 3: sprintf(t[i], "^%c$", x); break; case 4: sprintf(t[i], "[%cA]", x); break; default: sprintf(t[i], "%c)", x); }
		L[nl].s = t[i]; L[nl].d = RE_PCRE; L[nl].id = 1; strcat(body[1], t[i]); strcat(body[1], "\n"); nl++; }
	if (k == 4) { limit = 20; args("-n 20"); } addfile("f1", body[1], strlen(body[1])); arg(cf_[1].name); arg("f1"); show(); run("", 0); }
/* an intersection with a set of characters */
void h_charset(void) { static const char *const C[] = { "ab", "abc", "bA" }; unsigned d; static const unsigned char lits[] = { 0, 1, 2, 3 }; unsigned i, n; start(); d = sx_choice("dialect", 2) ? 4 : 0; arg("-r"); arg(DI[d].name); arg("-u"); multi = 1; cs = C[sx_choice("charset", 3)]; arg("-C"); arg(cs); n = sx_choice("patterns", 3); for (i = 0; i < n; i++) { L[nl].s = DP[d][lits[sx_choice("pattern", 4)]]; L[nl].d = DI[d].d; L[nl].id = i; strcat(body[0], L[nl].s); strcat(body[0], "\n"); nl++; } addfile("f0", body[0], strlen(body[0])); arg("f0"); show(); run("", 0); }
void h_known_charset(void) { start(); arg("-u"); multi = 1; cs = "ab"; arg("-C"); arg(cs); L[0].s = "^[ab]c?$"; L[0].d = RE_PCRE; nl = 1; strcpy(body[0], "^[ab]c?$\n"); addfile("f0", body[0], strlen(body[0])); arg("f0"); show(); run("", 0); }
/* literals of unconstrained bytes */
void h_bytes(void) { unsigned n = sx_choice("length", sx_param("N", 2) + 1), i, id = 0; static char b[16]; char *p = b; start(); args("-r literal -u"); multi = 1; for (i = 0; i < n; i++) { unsigned char c = sx_byte("byte"); sx_assume(c != 0); b[i] = c; } if (n && sx_fork((unsigned char) b[n - 1] != '\n')) ; addfile("f0", b, n); arg("f0");
	{ static char c2[16]; unsigned k = 0; for (i = 0; i < n; i++) { if (sx_fork(b[i] == '\n')) { c2[k] = 0; L[nl].s = strcpy(sx_raw_alloc(16), c2); memcpy((char *) L[nl].s, c2, k + 1); L[nl].d = RE_LITERAL; L[nl++].id = id++; k = 0; } else c2[k++] = b[i]; } if (k) { char *q = sx_raw_alloc(16); memcpy(q, c2, k); q[k] = 0; L[nl].s = q; L[nl].d = RE_LITERAL; L[nl++].id = id; } } (void) p; run("", 0); }
/* wrong usage */
void h_usage(void) {
	static const char *const U[] = { "", "-r nosuch f0", "-l nosuch f0", "-k nosuch f0", "-R a f0", "-F q f0", "nofile", "-u -l amd64_att f0", "-t -l amd64_go f0", "-s f0.nosuch", "-Z f0", "-r", "f0 nofile", "-d nodir f0" };
	unsigned i = sx_choice("case", sizeof U / sizeof *U + 2); usage_ = 1; arg("rx"); addfile("f0", "a\n", 2); addfile("f0.nosuch", "a\n", 2); if (i < sizeof U / sizeof *U) args(U[i]); else if (i == sizeof U / sizeof *U) { arg("-C"); arg("a\nb"); arg("f0"); } else { args("-h f0"); wanted = 1; } show(); run("", 0);
}
