#include "rx.h"
#define MAXC 100
/* Unconstrained bytes as (part of) a pattern, in every dialect with every flag: an automaton or a complete error. */
static const enum re_dialect ds[] = { RE_LIKE, RE_LITERAL, RE_GLOB, RE_NATIVE, RE_SQL, RE_PCRE };
static struct wbuf in;
static void check_text(enum re_dialect d, const unsigned char *src, unsigned nsrc, unsigned flags, int noerr) {
	struct re_err err; struct fsm *f;
	memset(&err, 0x5a, sizeof err); in.p = src; in.n = nsrc; in.i = 0;
	f = re_comp(d, wgetc, &in, NULL, (enum re_flags) flags, noerr ? NULL : &err);
	if (f) { sx_assert(in.i == nsrc, "a pattern is accepted of which a part was not read"); sx_reach("compiled"); fsm_free(f); NO_LEAK("re_comp"); return; }
	if (!noerr) {
		static const enum re_errno known[] = { RE_EBADDIALECT, RE_EERRNO, RE_EBADGROUP, RE_ENEGRANGE, RE_ENEGCOUNT, RE_EHEXRANGE, RE_EOCTRANGE, RE_ECOUNTRANGE, RE_EUNSUPPORTED, RE_EFLAG, RE_EBADCP, RE_EBADCOMMENT, RE_EXSUB, RE_EXTERM, RE_EXGROUP, RE_EXATOM, RE_EXCOUNT, RE_EXALTS, RE_EXRANGE, RE_EXCLOSEGROUP, RE_EXCLOSEFLAGS, RE_EXGROUPBODY, RE_EXEOF, RE_EXESC };
		unsigned i, n = sizeof known / sizeof *known;
		sx_assert(err.e != RE_ESUCCESS, "compilation fails without an error code");
		for (i = 0; i < n && err.e != known[i]; i++) ;
		sx_assert(i < n, "compilation fails with an error code that does not exist");
		if (err.e & RE_MARK) sx_assert(err.start.byte <= nsrc && err.end.byte <= nsrc && err.start.byte <= err.end.byte, "the position of the error is not within the pattern");
		if (err.e & RE_ESC) { for (i = 0; i < sizeof err.esc && err.esc[i]; i++) ; sx_assert(i < sizeof err.esc && i > 0, "the escape sequence is not reported"); }
		if (err.e == RE_ENEGRANGE) { for (i = 0; i < sizeof err.set && err.set[i]; i++) ; sx_assert(i < sizeof err.set && i > 0, "the range is not reported"); }
		if (err.e == RE_ENEGCOUNT) sx_assert(err.m > err.n, "the count is not reported");
		sx_assert(re_strerror(err.e) != NULL, "an error without a text");
	}
	sx_reach("refused"); NO_LEAK("re_comp");
}
static void check(enum re_dialect d, unsigned flags, int noerr) { check_text(d, pt, npt, flags, noerr); }
/* counts of hundreds and more only cost time and memory, and are outside (those no unsigned holds are inside) */
static void small_counts(void) {
	unsigned i, j; uint64_t v;
	for (i = 0; i + 1 < npt; i++) if (sx_fork((pt[i] == '{') | (pt[i] == ','))) {
		for (v = 0, j = i + 1; j < npt && sx_fork((pt[j] >= '0') & (pt[j] <= '9')); j++) { unsigned d = pt[j] - '0'; d = sx_fork(d); if (v < 10000000000u) v = v * 10 + d; }
		sx_assume((v < MAXC) | (v > 0xffffffffu));
	}
}
static unsigned draw_flags(unsigned n) { static const unsigned f[] = { 0, RE_EXTENDED, RE_ANCHORED, RE_SINGLE | RE_ANCHORED | RE_EXTENDED, RE_MULTI | RE_TEXT | RE_ZONE, RE_SAVE_LINKAGE_INFO | RE_END_NL | RE_EXTENDED, RE_ICASE | RE_EXTENDED, RE_ANCHORED | RE_REVERSE | RE_ICASE }; return f[sx_choice("flags", n)]; }
void h_any(void) {
	unsigned d = sx_param("dialect", 6), n, i; int noerr;
	if (d == 6) d = sx_choice("dialect", 6);
	n = sx_choice("length", sx_param("N", 3) + 1); npt = 0; noerr = sx_param("noerr", 0) && sx_choice("no error", 2);
	i = draw_flags(sx_param("flags", 8));
	{ unsigned k; for (k = 0; k < n; k++) p_ch(sx_byte("byte")); }
	check(ds[d], i, noerr);
}
/* fixed text around unconstrained bytes */
static const char *const ctx[][2] = {
	{ "a{", "}" }, { "a{1", "" }, { "a{1,", "}" }, { "[", "]" }, { "[^", "" }, { "[a-", "]" }, { "[a", "-b]" }, { "[[:", ":]]" }, { "[\\", "]" }, { "(?", ")" }, { "(?i", "a)" }, { "(?", ":a)" }, { "(", ")" }, { "(?#", ")" }, { "(*", ")" },
	{ "\\", "" }, { "\\x", "" }, { "\\x{", "}" }, { "\\o{", "}" }, { "\\0", "" }, { "\\c", "" }, { "\\Q", "\\E" }, { "\\Qa", "b" }, { "a#", "\nb" }, { "(a|", "b)" }, { "^", "$" }, { "a|", "" }, { "\\1", "" }, { "(?P<", ">a)" }, { "[\\x", "-\\xff]" }, { "(?x)a", "#b\n" }, { "a\\ca", "[" }
};
void h_context(void) {
	unsigned d = sx_param("dialect", 6), N = sx_param("N", 2), first = sx_param("first", 0), last = sx_param("last", 32), c, n, k, fl;
	if (d == 6) d = 3 + sx_choice("dialect", 3);
	c = first + sx_choice("context", last - first); fl = draw_flags(sx_param("flags", 2)); n = sx_choice("length", (c == 29 ? 1 : N) + 1); npt = 0;
	p_put(ctx[c][0]); for (k = 0; k < n; k++) p_ch(sx_byte("byte")); p_put(ctx[c][1]);
	small_counts(); check(ds[d], fl, 0);
}
/* long tokens and deep nesting: the fixed-size buffers of the parser and of the errors */
void h_long(void) {
	unsigned d = sx_choice("dialect", 6), form = sx_choice("form", 14), L = 1 + sx_choice("length", sx_param("M", 40)), i, c = sx_byte("byte");
	static const char *const pre[] = { "\\x{", "\\o{", "a{", "a{1,", "[[:", "(?", "(?#", "\\Q", "a{0", "[", "", "\\x{0", "(", "\\x{" }, *const rep[] = { "f", "7", "9", "9", "alpha", "i", "x", "a", "0", "ab-", "a?", "0", "(a|", "0" }, *const post[] = { "}", "}", "}", "}", ":]]", ":a)", ")", "\\E", "}", "]", "b", "}", "b", "41}" };
	npt = 0; p_put(pre[form]); for (i = 0; i < L; i++) p_put(rep[form]); p_put(post[form]); if (form == 12) for (i = 0; i < L; i++) p_ch(')');
	i = sx_choice("where", 3); if (i) pt[i == 1 ? npt - 1 : npt / 2] = c;
	small_counts(); check(ds[d], 0, 0);
}
/* tokens so long that the buffer of the lexer grows, and is made smaller again for the next */
static unsigned char big[60000]; static unsigned nbig;
static void b_put(const char *s) { while (*s) big[nbig++] = (unsigned char) *s++; }
void h_token(void) {
	static const char *const pre[] = { "a{", "\\x{", "a{1,", "(?#", "[[:", "\\Q", "\\", "(?" }, *const post[] = { "2}", "41}", "2}", ")", ":]]", "\\E", "101", ")" }; static const char rep[] = { '0', '0', '0', 'x', 'a', 'q', '0', 'i' };
	static const unsigned near[] = { 1024, 2048, 4096, 8192, 16384 };
	unsigned d = 3 + sx_choice("dialect", 3), form = sx_choice("form", 8), n = near[sx_choice("length", sx_param("M", 5))] + sx_choice("more", 5) - 3, twice = sx_choice("twice", 2), i, k, c = sx_byte("byte");
	if (form == 5) n = 70;
	nbig = 0; for (k = 0; k <= twice; k++) { b_put(pre[form]); for (i = 0; i < n; i++) big[nbig++] = rep[form]; b_put(post[form]); b_put("b{1}"); }
	i = nbig; b_put("z"); big[i] = c; sx_assume(c != '{' && c != ',');
	check_text(ds[d], big, nbig, 0, 0);
}
/* no pattern of the dialect, and a dialect that does not exist */
void h_dialect(void) {
	struct re_err err; unsigned d = 6 + sx_choice("dialect", 250), w = sx_choice("no error", 2); struct fsm *f;
	npt = 1; pt[0] = 'a'; in.p = pt; in.n = 1; in.i = 0; memset(&err, 0, sizeof err);
	f = re_comp((enum re_dialect) d, wgetc, &in, NULL, 0, w ? NULL : &err); sx_assert(!f, "a dialect that does not exist is accepted"); if (!w) sx_assert(err.e == RE_EBADDIALECT, "the error of a dialect that does not exist is another");
	sx_reach("dialect"); NO_LEAK("re_comp");
}
