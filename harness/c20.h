/* What re_is_literal and re_is_anchored say about a pattern against the language of its automaton. Included after
 * c15.c (PCRE) or c16.c (native), whose patterns are used. */
#include <re/literal.h>
static struct ext lx; static char *ls; static size_t ln; static enum re_literal_category lc; static struct re_err lerr;
static int is_lit(enum re_dialect d, unsigned flags) {
	int r; rb.p = pt; rb.n = npt; rb.i = 0; memset(&lerr, 0, sizeof lerr); ls = NULL; ln = 77; lc = 99;
	r = re_is_literal(d, wgetc, &rb, (enum re_flags) flags, &lerr, &lc, &ls, &ln);
	sx_assert(r == 0 || r == 1 || r == -1, "re_is_literal returns something else"); return r;
}
/* nl: a newline at the end of the text stands for the optional newline of $ */
static void lit_ext(struct ext *x, const char *s, size_t n, unsigned cat, int nl) {
	unsigned i; x_init(x, n + 3); x->hasstart = 1; x->start = 0;
	if (!(cat & RE_LITERAL_ANCHOR_START)) x_edge(x, 0, 0, 0, 255);
	for (i = 0; i < n; i++) x_edge(x, i, i + 1, (unsigned char) s[i], (unsigned char) s[i]);
	x_end(x, n); if (nl) x_end(x, n - 1); if (!(cat & RE_LITERAL_ANCHOR_END)) x_edge(x, n, n, 0, 255);
}
static void check_literal(enum re_dialect d, unsigned flags, struct ext *lang, int ok) {
	int r = is_lit(d, flags);
	if (r == -1) { sx_assert(!ok, "re_is_literal rejects a pattern that compiles"); sx_assert(lerr.e != RE_ESUCCESS, "re_is_literal reports no error"); sx_reach("error"); return; }
	sx_assert(ok, "re_is_literal accepts a pattern that does not compile");
	if (r == 0) { sx_reach("not a literal"); return; }
	if (lc == RE_LITERAL_UNSATISFIABLE) { sx_assert(ls == NULL, "a pattern that matches nothing has a literal"); sx_assert(ln == 0, "a pattern that matches nothing has a literal of some length"); x_init(&lx, 1); lx.hasstart = 1; x_lang(lang, &lx, "a pattern said to match nothing matches something"); sx_reach("unsatisfiable"); return; }
	sx_assert(lc <= RE_LITERAL_ANCHOR_BOTH, "re_is_literal gives no category"); sx_assert(ln < 40 && (ln == 0) == (ls == NULL), "re_is_literal gives no text");
	{ int nl = 0; unsigned i;
	if (d == RE_PCRE && (lc & RE_LITERAL_ANCHOR_END) && ln > 0 && sx_fork(ls[ln - 1] == '\n')) for (i = 0; i < npt && !nl; i++) nl = sx_fork(pt[i] == '$' || pt[i] == 'Z');
	lit_ext(&lx, ls, ln, lc, nl); x_lang(lang, &lx, "a pattern said to be a literal has another language"); }
	free(ls); sx_reach("literal");
}
static void check_anchored(enum re_dialect d, unsigned flags, unsigned e, unsigned eol) {
	enum re_is_anchored_res r; rb.i = 0; memset(&lerr, 0, sizeof lerr); r = re_is_anchored(d, wgetc, &rb, (enum re_flags) flags, &lerr);
	sx_assert(r != RE_IS_ANCHORED_ERROR && r <= RE_IS_ANCHORED_BOTH, "re_is_anchored rejects a pattern that compiles");
	if (r & RE_IS_ANCHORED_START) { r_ext(&lx, r_new(R_CAT, r_new(R_BOL, 0, 0), e), 0); x_lang(&got, &lx, "a pattern said to be anchored at the start matches elsewhere"); sx_reach("start"); }
	if (r & RE_IS_ANCHORED_END) { r_ext(&lx, r_new(R_CAT, e, r_new(eol, 0, 0)), 0); x_lang(&got, &lx, "a pattern said to be anchored at the end matches elsewhere"); sx_reach("end"); }
	sx_reach("anchors");
}
static void check(enum re_dialect d, unsigned flags, unsigned e, unsigned eol) {
	struct fsm *f = r_comp(d, flags);
	if (f) { x_of_re(&got, f); fsm_free(f); }
	check_literal(d, flags, &got, f != NULL);
	if (f && !(flags & (RE_ANCHORED | RE_REVERSE))) check_anchored(d, flags, e, eol);
	if (!f) { rb.i = 0; sx_assert(re_is_anchored(d, wgetc, &rb, (enum re_flags) flags, &lerr) == RE_IS_ANCHORED_ERROR, "re_is_anchored accepts a pattern that does not compile"); }
	NO_LEAK("re_is_literal");
}
/* a literal written plainly, between optional anchors, is reported, with its text and anchors */
static void plain(enum re_dialect d) {
	unsigned n = sx_choice("length", sx_param("N", 3) + 1), s = sx_choice("start", 2), e = sx_choice("end", 2), i, k; unsigned char t[8]; int r;
	npt = 0; if (s) p_put("^");
	for (i = 0; i < n; i++) { t[i] = i == sx_param("at", 1) ? sx_byte("byte") : 'b'; sx_assume(t[i] != 0); if (sx_fork(t[i] < 128)) sx_assume(!strchr("\\^$.[|()?*+{}#/ \t\n\v\f\r", t[i])); p_ch(t[i]); }
	if (e) p_put("$");
	r = is_lit(d, 0); sx_assert(r == 1, "a plain literal is not reported as a literal");
	sx_assert(lc == (s ? RE_LITERAL_ANCHOR_START : 0) + (e ? RE_LITERAL_ANCHOR_END : 0), "a plain literal is reported with other anchors");
	k = e && d == RE_PCRE; sx_assert(ln == n + k, "a plain literal is reported with another length");
	for (i = 0; i < n; i++) sx_assert((unsigned char) ls[i] == t[i], "a plain literal is reported with other text");
	if (k) sx_assert(ls[n] == '\n', "a plain literal is reported without the newline of $");
	free(ls); rb.i = 0; r = re_is_anchored(d, wgetc, &rb, 0, &lerr);
	if (n > 0 || (s && !e)) sx_assert(!s || (r & RE_IS_ANCHORED_START), "a pattern that begins with ^ is not reported as anchored at the start");
	if (n > 0 || (!s && e)) sx_assert(!e || (r & RE_IS_ANCHORED_END), "a pattern that ends with $ is not reported as anchored at the end");
	sx_reach("plain"); NO_LEAK("re_is_literal");
}
/* any bytes */
static void bytes(void) {
	static const unsigned fls[] = { 0, RE_ANCHORED, RE_SINGLE, RE_ANCHORED | RE_SINGLE, RE_EXTENDED, RE_ICASE, RE_REVERSE };
	static const enum re_dialect ds[] = { RE_PCRE, RE_NATIVE, RE_LITERAL, RE_GLOB, RE_LIKE, RE_SQL };
	unsigned N = sx_param("N", 2), i; enum re_dialect d = ds[sx_choice("dialect", 6)]; unsigned flags = fls[sx_choice("flags", sx_param("flags", 5))]; struct fsm *f;
	npt = 0; for (i = 0; i < N; i++) p_ch(sx_byte("byte")); if (sx_param("pre", 0)) { for (i = N; i > 0; i--) pt[i] = pt[i - 1]; pt[0] = '^'; pt[++npt] = '$'; npt++; }
	f = r_comp(d, flags); if (f) { x_of_re(&got, f); fsm_free(f); }
	check_literal(d, flags, &got, f != NULL); NO_LEAK("re_is_literal");
}
