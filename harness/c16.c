#include "rx.h"
/* The native dialect: every pattern of up to N tokens against its meaning; bytes, numbers, classes and counts. */
static struct ext want, rev, got; static int anch;
static int maybe_unsupported(void) { return rerr.e == RE_EUNSUPPORTED && (r_has & 1); }
#ifdef HOOK
static void HOOK(enum re_dialect d, unsigned flags);
#endif
static void compare(unsigned e, unsigned flags) {
#ifdef HOOK
	(void) e; HOOK(RE_NATIVE, flags); return;
#endif
	struct fsm *f = r_comp(RE_NATIVE, flags);
	if (!f) { if (sx_param("survey", 0)) { if (!maybe_unsupported()) { strcat(p_text, " REJECTED"); sx_reach(p_text); } return; } sx_assert(maybe_unsupported(), "a pattern of the dialect is rejected"); sx_reach("unsupported"); NO_LEAK("re_comp"); return; }
	r_ext(&want, e, (flags & RE_ANCHORED) != 0); x_of_re(&got, f);
	if (sx_param("survey", 0)) { if (!(flags & RE_REVERSE) && x_differ(&want, &got)) sx_reach(p_text); fsm_free(f); return; }
	if (flags & RE_REVERSE) { r_reverse(&rev, &want); x_lang(&rev, &got, "the reversed pattern does not have the reversed language"); }
	else x_lang(&want, &got, "the automaton does not accept the language of the pattern");
	sx_reach("compared"); fsm_free(f); NO_LEAK("re_comp");
}
static void refused(unsigned flags, const char *what) { struct fsm *f = r_comp(RE_NATIVE, flags); sx_assert(!f, what); sx_assert(rerr.e != RE_ESUCCESS, "no error is reported"); sx_reach("rejected"); NO_LEAK("re_comp"); }
static const unsigned fl[] = { 0, RE_ICASE, RE_SINGLE, RE_ANCHORED, RE_REVERSE, RE_ICASE | RE_SINGLE | RE_ANCHORED };
static unsigned begin(unsigned k) { unsigned flags = k < 6 ? fl[k] : fl[sx_choice("flags", 6)]; anch = (flags & RE_ANCHORED) != 0; w_begin((flags & RE_ICASE ? FI : 0) | (flags & RE_SINGLE ? FS : 0)); return flags; }
static unsigned lit(unsigned c) { return r_sym(c, (cf & FI) != 0); }
static int sym = -1;
static const char *const alpha[] = { "aB.(|)*?", "a^$(|)*", "a^$n(|)?", "ab+*?0125", "aS(|)?.", "a^$+(|)" };
static void draw(const char *al, unsigned N) {
	unsigned i, room; int q = 0, t; char cand[24]; unsigned nc;
	for (room = N; ; room--) {
		int empty = lv[nlv - 1].cat < 0 && lv[nlv - 1].last < 0;
		nc = 0; if (nlv == 1 && !empty) cand[nc++] = 0;
		for (i = 0; room > 0 && al[i]; i++) {
			t = al[i];
			if (strchr("*+?012345", t) ? !q : t == ')' ? nlv == 1 || empty : t == '|' ? empty || room < nlv + 1 : t == '(' ? room < nlv + 2 : room < nlv) continue;
			cand[nc++] = t;
		}
		sx_assume(nc > 0); t = cand[sx_choice("tok", nc)];
		if (!t) break;
		q = 1;
		switch (t) {
		case 'a': case 'b': case 'B': p_ch(t); w_item(lit(t)); break;
		case '.': p_put("."); w_item(r_any(cf & FS)); break;
		case '^': p_put("^"); w_item(r_new(R_BOL, 0, 0)); q = 0; break;
		case '$': p_put("$"); w_item(r_new(R_EOL, 0, 0)); q = 0; break;
		case 'q': p_put("^"); w_item(r_new(R_BOL, 0, 0)); break;
		case 'n': p_put("\\n"); w_item(lit('\n')); break;
		case 'S': if (sym < 0) { sym = sx_byte("literal"); if (sx_fork(sym < 128)) sx_assume(!strchr("\\^$.[|()?*+{", sym) || sym == 0); } p_ch(sym); w_item(lit(sym)); break;
		case '(': p_put("("); w_open(); q = 0; break;
		case ')': p_put(")"); { unsigned e = w_close(); w_item(e); } break;
		case '|': p_put("|"); w_alt(); q = 0; break;
		case '*': p_put("*"); w_quant(0, RINF); q = 0; break;
		case '+': p_put("+"); w_quant(1, RINF); q = 0; break;
		case '?': p_put("?"); w_quant(0, 1); q = 0; break;
		case '0': p_put("{0}"); w_quant(0, 0); q = 0; break;
		case '1': p_put("{2}"); w_quant(2, 2); q = 0; break;
		case '2': p_put("{1,2}"); w_quant(1, 2); q = 0; break;
		case '3': p_put("{0,}"); w_quant(0, RINF); q = 0; break;
		case '4': p_put("{2,}"); w_quant(2, RINF); q = 0; break;
		case '5': p_put("{0,2}"); w_quant(0, 2); q = 0; break;
		}
	}
	sx_assume(nlv == 1);
}
void h_tokens(void) { unsigned flags = begin(sx_param("flags", 0)); draw(alpha[sx_param("alphabet", 0)], sx_param("N", 4)); w_alt(); compare(lv[0].alt, flags); }
static const char hex[] = "0123456789abcdefABCDEF";
static unsigned hexv(unsigned i) { return i < 16 ? i : i - 6; }
static int alnum(unsigned c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
void h_byte(void) {
	unsigned flags = begin(6), k = sx_choice("kind", 6), between = sx_choice("between", 2), in = k >= 3 && sx_choice("in a class", 2), v, a, b, c, i;
	if (between) { p_put("x"); w_item(lit('x')); }
	if (in) p_put("[");
	switch (k) {
	case 0: v = sx_byte("byte"); if (sx_fork(v < 128)) sx_assume(!strchr("\\^$.[|()?*+{", v) || v == 0); p_ch(v); break;
	case 1: { static const char s[] = "\\^$?*+.|(){["; i = sx_choice("which", 12); v = s[i]; sx_assume(v != 0); p_put("\\"); p_ch(v); break; }
	case 2: { static const char s[] = "fnrtv"; static const uint8_t x[] = { 12, 10, 13, 9, 11 }; i = sx_choice("which", 5); v = x[i]; p_put("\\"); p_ch(s[i]); break; }
	case 3: a = sx_choice("d", 22); b = sx_choice("d", 22); v = hexv(a) * 16 + hexv(b); p_put("\\x"); p_ch(hex[a]); p_ch(hex[b]); break;
	case 4: a = sx_choice("d", 8); b = sx_choice("d", 8); c = sx_choice("d", 8); v = a * 64 + b * 8 + c; p_put("\\"); p_ch('0' + a); p_ch('0' + b); p_ch('0' + c); break;
	default: a = sx_choice("d", 8); b = sx_choice("d", 9); v = b < 8 ? a * 8 + b : a; p_put("\\"); p_ch('0' + a); if (b < 8) p_ch('0' + b); break;
	}
	if (in) p_put("]");
	if (sx_fork(v > 255)) { refused(flags, "a number out of range is accepted"); return; }
	w_item(lit(v)); if (between) { p_put("y"); w_item(lit('y')); }
	w_alt(); compare(lv[0].alt, flags);
}
static const char *const names[] = { "alnum", "alpha", "ascii", "cntrl", "digit", "graph", "hspace", "lower", "print", "punct", "space", "upper", "vspace", "word", "xdigit" };
static int in_class(unsigned k, unsigned c) {
	int dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
	switch (k) { case 0: return dg || up || lo; case 1: return up || lo; case 2: return c < 128; case 3: return c < 32 || c == 127; case 4: return dg; case 5: return c > 32 && c < 127; case 6: return c == 9 || c == 32; case 7: return lo; case 8: return c >= 32 && c < 127;
	case 9: return c > 32 && c < 127 && !alnum(c); case 10: return (c >= 9 && c <= 13) || c == 32; case 11: return up; case 12: return c >= 10 && c <= 13; case 13: return alnum(c) || c == '_'; default: return dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
}
static int c_item(uint8_t *t, unsigned kinds) {
	unsigned k = sx_choice("item", kinds), i, j;
	switch (k) {
	case 0: p_put("a"); t['a'] = 1; break;
	case 1: p_put("\\n"); t['\n'] = 1; break;
	case 2: p_put("B-D"); for (i = 'B'; i <= 'D'; i++) t[i] = 1; break;
	case 3: i = sx_choice("class", 15); p_put("[:"); p_put(names[i]); p_put(":]"); for (j = 0; j < 256; j++) t[j] |= in_class(i, j); break;
	case 4: { static const char sp[] = ".|()*+?${}#^ ["; unsigned c = sp[sx_choice("special", 14)]; sx_assume(c != '^' || pt[npt - 1] != '['); p_ch(c); t[c] = 1; break; }
	case 5: { static const char *const es[] = { "\\\\", "\\]", "\\-", "\\^", "\\[", "\\t", "\\f", "\\r", "\\v" }; static const uint8_t v[] = { '\\', ']', '-', '^', '[', 9, 12, 13, 11 }; i = sx_choice("escape", 9); p_put(es[i]); t[v[i]] = 1; break; }
	case 6: p_put("\\xff"); t[255] = 1; break;
	case 7: { static const char *const m[] = { "%c-%c", "\\x%02x-\\x%02x", "\\%o-\\x%02x", "%c-\\x%02x", "\\x%02x-\\%o" }; unsigned w = sx_choice("written", 6); char b[40];
		if (w == 5) { /* escapes that are names */
			static const char *const es[] = { "\\t", "\\n", "\\v", "\\f", "\\r", "\\[", "\\\\", "\\]", "\\^", "\\-" }; static const uint8_t v[] = { 9, 10, 11, 12, 13, '[', '\\', ']', '^', '-' }; unsigned x = sx_choice("from", 10), y = sx_choice("to", 10);
			p_put(es[x]); p_put("-"); p_put(es[y]); for (i = v[x]; i <= v[y]; i++) t[i] = 1; return v[x] > v[y]; }
		i = sx_choice("from", 256); switch (sx_choice("to", 6)) { case 0: j = i; break; case 1: j = i + 1; break; case 2: j = i + 40; break; case 3: j = 255; break; case 4: j = i ^ 32; break; default: j = i - 1; }
		sx_assume(j < 256);
		if (w == 0 || w == 3) sx_assume(i != 0 && i < 128 && !strchr("\\^-[]", i)); if (w == 0) sx_assume(j != 0 && !strchr("\\^-[]", j));
		sprintf(b, m[w], i, j); p_put(b); if (j < i) return 1;
		for (; i <= j; i++) t[i] = 1; break; }
	}
	return 0;
}
void h_class(void) {
	uint8_t t[256]; unsigned flags = begin(6), N = sx_param("N", 2), neg = sx_choice("negated", 2), lead = sx_choice("lead", 3), i, kinds = sx_param("kinds", 7), first = sx_param("first", 0), n; int bad = 0;
	memset(t, 0, sizeof t); p_put(neg ? "[^" : "[");
	if (lead == 1) { p_put("]"); t[']'] = 1; } else if (lead == 2) { p_put("-"); t['-'] = 1; }
	n = 1 + sx_choice("items", N); (void) first;
	for (i = 0; i < n; i++) bad |= c_item(t, i == 0 ? kinds : 4);
	if (sx_choice("trail", 2)) { p_put("-"); t['-'] = 1; }
	p_put("]"); if (cf & FI) r_fold(t);
	if (bad) { refused(flags, "a range in the wrong order is accepted"); return; }
	if (neg) for (i = 0; i < 256; i++) t[i] = !t[i];
	for (i = 0; i < 256; i++) if (t[i]) break;
	sx_assume(i < 256);
	w_item(r_table(t)); if (sx_choice("then", 2)) { p_put("]"); w_item(lit(']')); }
	w_alt(); compare(lv[0].alt, flags);
}
void h_ranges(void) {
	uint8_t t[256]; unsigned flags = begin(sx_choice("icase", 2)), i, k; memset(t, 0, sizeof t); p_put("["); k = c_item(t, 8); p_put("]");
	if (k) { refused(flags, "a range in the wrong order is accepted"); return; }
	if (cf & FI) r_fold(t);
	for (i = 0; i < 256; i++) if (t[i]) break;
	sx_assume(i < 256); w_item(r_table(t)); w_alt(); compare(lv[0].alt, flags);
}
void h_count(void) {
	unsigned flags = 0, M = sx_param("M", 12), m = sx_choice("m", M), form = sx_choice("form", 2), n, what = sx_choice("what", 3); char b[20];
	w_begin(0); anch = 0;
	if (what == 0) { p_put("a"); w_item(lit('a')); } else if (what == 1) { p_put("(a?b)"); w_open(); w_item(lit('a')); w_quant(0, 1); w_item(lit('b')); w_item(w_close()); } else { p_put("^(a|b?c)"); w_item(r_new(R_BOL, 0, 0)); w_open(); w_item(lit('a')); w_alt(); w_item(lit('b')); w_quant(0, 1); w_item(lit('c')); w_item(w_close()); }
	if (form == 0) { sprintf(b, "{%u}", m); n = m; } else { n = sx_choice("n", M); sprintf(b, "{%u,%u}", m, n); }
	p_put(b); if (n < m) { refused(flags, "a count in the wrong order is accepted"); return; }
	w_quant(m, n); if (sx_choice("then", 2)) { p_put("c$"); w_item(lit('c')); w_item(r_new(R_EOL, 0, 0)); }
	w_alt(); compare(lv[0].alt, flags);
}
#define NATIVE_COUNTS 1
#include "nested.h"
#include "similar.h"
