#include "rx.h"
/* Glob, LIKE and literal patterns of unconstrained bytes; SQL SIMILAR TO patterns of up to N tokens. */
static struct ext want, rev, got;
static unsigned lit(unsigned c) { return r_sym(c, (cf & FI) != 0); }
#ifdef HOOK
static void HOOK(enum re_dialect d, unsigned flags);
#endif
static void compare(unsigned d, unsigned e, unsigned flags) {
#ifdef HOOK
	(void) e; HOOK((enum re_dialect) d, flags); return;
#endif
	struct fsm *f = r_comp(d, flags);
	if (!f && sx_param("survey", 0)) { strcat(p_text, " REJECTED"); sx_reach(p_text); return; }
	if (!f) { sx_assert(rerr.e == RE_EUNSUPPORTED && (r_has & 6) == 6, "a pattern of the dialect is rejected"); sx_reach("unsupported"); NO_LEAK("re_comp"); return; }
	r_ext(&want, e, 1); x_of_re(&got, f);
	if (sx_param("survey", 0)) { if (!(flags & RE_REVERSE) && x_differ(&want, &got)) sx_reach(p_text); fsm_free(f); return; }
	if (flags & RE_REVERSE) { r_reverse(&rev, &want); x_lang(&rev, &got, "the reversed pattern does not have the reversed language"); }
	else x_lang(&want, &got, "the automaton does not accept the language of the pattern");
	sx_reach("compared"); fsm_free(f); NO_LEAK("re_comp");
}
static void refused(const char *what) { struct fsm *f = r_comp(RE_SQL, 0); sx_assert(!f, what); sx_assert(rerr.e != RE_ESUCCESS, "no error is reported"); sx_reach("rejected"); NO_LEAK("re_comp"); }
static const unsigned fl[] = { 0, RE_ICASE, RE_REVERSE, RE_ANCHORED, RE_SINGLE };
static const enum re_dialect ds[] = { RE_GLOB, RE_LIKE, RE_LITERAL };
void h_bytes(void) {
	unsigned d = ds[sx_choice("dialect", 3)], flags = fl[sx_choice("flags", sx_param("flags", 5))], n = sx_choice("length", sx_param("N", 3) + 1), i, e, c, few = sx_param("few", 0), pos = 0, s = 0;
	w_begin(flags & RE_ICASE ? FI : 0);
	if (few && n) pos = sx_choice("where", n);
	for (i = 0; i < n; i++) {
		if (few && i != pos) { static const char f[] = "a?*%_A"; c = (unsigned char) f[sx_choice("which", 6)]; }
		else { c = sx_byte("byte"); }
		p_ch(c);
		if (d == RE_GLOB && sx_fork(c == '?')) e = r_any(1);
		else if (d == RE_GLOB && sx_fork(c == '*')) e = r_rep(r_any(1), 0, RINF);
		else if (d == RE_LIKE && sx_fork(c == '_')) e = r_any(1);
		else if (d == RE_LIKE && sx_fork(c == '%')) e = r_rep(r_any(1), 0, RINF);
		else e = lit(c);
		s = i ? r_new(R_CAT, s, e) : e;
	}
	if (!n) s = r_new(R_EMPTY, 0, 0);
	compare(d, s, flags);
}
/* SQL */
static int sym = -1;
static const char *const alpha[] = { "ab_%(|)*", "a_?+012(|)", "aS%|", "a.cdefg*", "aB_%(|)" };
static unsigned set(const char *s, int neg) { uint8_t t[256]; unsigned i; memset(t, 0, 256); while (*s) t[(unsigned char) *s++] = 1; if (cf & FI) r_fold(t); if (neg) for (i = 0; i < 256; i++) t[i] = !t[i]; return r_table(t); }
static void draw(const char *al, unsigned N) {
	unsigned i, room; int q = 0, t; char cand[24]; unsigned nc;
	for (room = N; ; room--) {
		nc = 0; if (nlv == 1) cand[nc++] = 0;
		for (i = 0; room > 0 && al[i]; i++) {
			t = al[i];
			if (strchr("*+?012", t) ? !q : t == ')' ? nlv == 1 : t == '(' ? room < nlv + 1 : room < nlv) continue;
			cand[nc++] = t;
		}
		sx_assume(nc > 0); t = cand[sx_choice("tok", nc)];
		if (!t) break;
		q = 1;
		switch (t) {
		case 'a': case 'b': case 'B': case '.': p_ch(t); w_item(lit(t)); break;
		case '_': p_put("_"); w_item(r_any(1)); break;
		case '%': p_put("%"); w_item(r_rep(r_any(1), 0, RINF)); break;
		case 'c': p_put("[ab]"); w_item(set("ab", 0)); break;
		case 'd': p_put("[^ab]"); w_item(set("ab", 1)); break;
		case 'e': p_put("[a-d^bc]"); w_item(set(cf & FI ? "ad" : "ad", 0)); break;
		case 'f': p_put("[%_*]"); w_item(set("%_*", 0)); break;
		case 'g': p_put("[-a]"); w_item(set("-a", 0)); break;
		case 'S': if (sym < 0) { sym = sx_byte("literal"); if (sx_fork(sym < 128)) sx_assume(!strchr("_%()?*+|[]{}", sym) || sym == 0); } p_ch(sym); w_item(lit(sym)); break;
		case '(': p_put("("); w_open(); q = 0; break;
		case ')': p_put(")"); { unsigned e = w_close(); w_item(e); } break;
		case '|': p_put("|"); w_alt(); q = 0; break;
		case '*': p_put("*"); w_quant(0, RINF); q = 0; break;
		case '+': p_put("+"); w_quant(1, RINF); q = 0; break;
		case '?': p_put("?"); w_quant(0, 1); q = 0; break;
		case '0': p_put("{0}"); w_quant(0, 0); q = 0; break;
		case '1': p_put("{2}"); w_quant(2, 2); q = 0; break;
		case '2': p_put("{1,3}"); w_quant(1, 3); q = 0; break;
		}
	}
	sx_assume(nlv == 1);
}
void h_sql(void) { unsigned flags = fl[sx_param("flags", 0) ? sx_choice("flags", 5) : 0]; w_begin(flags & RE_ICASE ? FI : 0); draw(alpha[sx_param("alphabet", 0)], sx_param("N", 4)); w_alt(); compare(RE_SQL, lv[0].alt, flags); }
static const char *const names[] = { "ALNUM", "ALPHA", "DIGIT", "LOWER", "SPACE", "UPPER", "WHITESPACE" };
static int in_class(unsigned k, unsigned c) {
	int dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
	switch (k) { case 0: return dg || up || lo; case 1: return up || lo; case 2: return dg; case 3: return lo; case 4: return c == ' '; case 5: return up; default: return (c >= 9 && c <= 13) || c == 32; }
}
static int bad;
static void items(uint8_t *t, unsigned n, unsigned kinds) {
	unsigned k, i, j, m;
	for (m = 0; m < n; m++) switch (k = sx_choice("item", kinds)) {
	case 0: p_put("a"); t['a'] = 1; break;
	case 1: p_put("B-D"); for (i = 'B'; i <= 'D'; i++) t[i] = 1; break;
	case 2: i = sx_choice("class", 7); p_put("[:"); p_put(names[i]); p_put(":]"); for (j = 0; j < 256; j++) t[j] |= in_class(i, j); break;
	case 3: { static const char sp[] = ".|()*+?${}# _%\\"; unsigned c = sp[sx_choice("special", 15)]; p_ch(c); t[c] = 1; break; }
	case 4: i = sx_choice("byte", 256); sx_assume(i != '^' && i != '-' && i != ']' && i != '['); p_ch(i); t[i] = 1; break;
	default: i = sx_choice("from", 256); switch (sx_choice("to", 5)) { case 0: j = i; break; case 1: j = i + 1; break; case 2: j = i + 40; break; case 3: j = 255; break; default: j = i - 1; }
		sx_assume(j < 256 && i != '^' && i != '-' && i != ']' && i != '[' && j != '^' && j != '-' && j != ']' && j != '['); p_ch(i); p_put("-"); p_ch(j); if (j < i) bad = 1; for (; i <= j; i++) t[i] = 1; break;
	}
}
void h_class(void) {
	uint8_t t[256], u[256]; unsigned flags = sx_choice("icase", 2) ? RE_ICASE : 0, neg = sx_choice("negated", 2), i, kinds = sx_param("kinds", 4), ex = sx_choice("exclude", 2), dash = sx_choice("dash", 2); bad = 0;
	memset(t, 0, 256); memset(u, 0, 256); w_begin(flags ? FI : 0); p_put(neg ? "[^" : "[");
	if (dash) { p_put("-"); t['-'] = 1; }
	items(t, 1 + sx_choice("items", sx_param("N", 2)), kinds); if (cf & FI) r_fold(t);
	if (neg) for (i = 0; i < 256; i++) t[i] = !t[i];
	if (ex) { p_put("^"); if (sx_choice("dash", 2)) { p_put("-"); u['-'] = 1; } items(u, 1 + sx_choice("items", sx_param("M", 1)), sx_param("xkinds", 4)); if (cf & FI) r_fold(u); for (i = 0; i < 256; i++) t[i] &= !u[i]; }
	p_put("]");
	if (bad) { refused("a range in the wrong order is accepted"); return; }
	for (i = 0; i < 256; i++) if (t[i]) break;
	if (i == 256) { unsigned e = r_new(R_SET, 0, 0); w_item(e); sx_reach("an empty set"); } else w_item(r_table(t));
	if (sx_choice("then", 2)) { p_put("a"); w_item(lit('a')); }
	w_alt(); compare(RE_SQL, lv[0].alt, flags);
}
void h_count(void) {
	unsigned M = sx_param("M", 12), m = sx_choice("m", M), n, form = sx_choice("form", 2); char b[20];
	w_begin(0); p_put("(a_?|b)"); w_open(); w_item(lit('a')); w_item(r_rep(r_any(1), 0, 1)); w_alt(); w_item(lit('b')); w_item(w_close());
	if (form == 0) { sprintf(b, "{%u}", m); n = m; } else { n = sx_choice("n", M); sprintf(b, "{%u,%u}", m, n); }
	p_put(b); if (n < m) { refused("a count in the wrong order is accepted"); return; }
	w_quant(m, n); if (sx_choice("then", 2)) { p_put("c"); w_item(lit('c')); }
	w_alt(); compare(RE_SQL, lv[0].alt, 0);
}
