#include "rx.h"
/* PCRE: every pattern of up to N tokens from an alphabet against its meaning. */
static struct ext want, rev, got;
enum { T_A, T_B, T_UP, T_DOT, T_BOL, T_EOL, T_BOT, T_EOT, T_EOTNL, T_NL, T_NOTA, T_SYM, T_SP, T_COM, T_CLS, T_OPEN, T_NCOPEN, T_IOPEN, T_NAMED, T_CLOSE, T_BAR, T_STAR, T_PLUS, T_OPT, T_R0, T_R2, T_R12, T_R0I, T_R2I, T_R02, T_R1, T_FI, T_FNI, T_FS, T_FX, T_REM, T_Q, T_MAX };
/* alphabets */
static const char *const alpha[] = {
	"aA.(|)*?", "a^$(|)*", "a^$\n(|)?", "azZ$^.\n", "ab.N+*?012345", "aiI(g|)b*", "axX #*|(S", "a.sn(|)A", "(:|)aQ^$r*", "a^z(|)*?\n", "az$(|)?",
};
static int tok_of(int c) {
	switch (c) { case 'a': return T_A; case 'b': return T_B; case 'A': return T_UP; case '.': return T_DOT; case '^': return T_BOL; case '$': return T_EOL; case 'Z': return T_EOTNL; case 'z': return T_EOT; case 'T': return T_BOT; case '\n': return T_NL; case 'N': return T_NOTA; case 'S': return T_SYM; case ' ': return T_SP; case '#': return T_COM; case 'C': return T_CLS; case '(': return T_OPEN; case ':': return T_NCOPEN; case 'g': return T_IOPEN; case '<': return T_NAMED; case ')': return T_CLOSE; case '|': return T_BAR; case '*': return T_STAR; case '+': return T_PLUS; case '?': return T_OPT; case '0': return T_R0; case '1': return T_R2; case '2': return T_R12; case '3': return T_R0I; case '4': return T_R2I; case '5': return T_R02; case '6': return T_R1; case 'i': return T_FI; case 'I': return T_FNI; case 's': return T_FS; case 'x': return T_FX; case 'n': return T_NL; case 'X': return T_UP; case 'r': return T_REM; case 'Q': return T_Q; }
	return -1;
}
static int sym = -1;
static unsigned lit(unsigned c) { return r_sym(c, (cf & FI) != 0); }
static unsigned nota(void) { uint8_t t[256]; unsigned i; for (i = 0; i < 256; i++) t[i] = i != 'a' && !((cf & FI) && i == 'A'); return r_table(t); }
static int allowed(int t, int quantable, unsigned room) {
	if (t >= T_STAR && t <= T_R1) return quantable;
	if (t == T_CLOSE) return nlv > 1;
	if (room < nlv) return 0; /* the open groups must still be closed */
	if (t >= T_OPEN && t <= T_NAMED) return room > nlv;
	return 1;
}
static int anch; /* with RE_ANCHORED the $ of PCRE is the very end */
static void draw(const char *al, unsigned N) {
	unsigned i, k, room; int q = 0, t; int cand[32]; unsigned nc;
	for (room = N; room > 0; room--) {
		nc = 0; if (nlv == 1) cand[nc++] = -1;
		for (i = 0; al[i]; i++) { t = tok_of(al[i]); if (allowed(t, q, room)) cand[nc++] = t; }
		k = sx_choice("tok", nc); t = cand[k];
		if (t < 0) break;
		q = 1;
		switch (t) {
		case T_A: p_put("a"); w_item(lit('a')); break;
		case T_B: p_put("b"); w_item(lit('b')); break;
		case T_UP: p_put("B"); w_item(lit('B')); break;
		case T_DOT: p_put("."); w_item(r_any(cf & FS)); break;
		case T_BOL: p_put("^"); w_item(r_new(R_BOL, 0, 0)); q = 0; break;
		case T_BOT: p_put("\\A"); w_item(r_new(R_BOL, 0, 0)); q = 0; break;
		case T_EOL: p_put("$"); w_item(r_new(anch ? R_EOL : R_EOLNL, 0, 0)); q = 0; break;
		case T_EOTNL: p_put("\\Z"); w_item(r_new(anch ? R_EOL : R_EOLNL, 0, 0)); q = 0; break;
		case T_EOT: p_put("\\z"); w_item(r_new(R_EOL, 0, 0)); q = 0; break;
		case T_NL: p_put("\\n"); w_item(lit('\n')); break;
		case T_NOTA: p_put("[^a]"); w_item(nota()); break;
		case T_Q: p_put("\\Qa|\\E"); w_item(lit('a')); w_item(lit('|')); break;
		case T_REM: p_put("(?#x*)"); q = q && lv[nlv - 1].last >= 0; q = 0; break;
		case T_SYM: if (sym < 0) { sym = sx_byte("literal"); sx_assume(sym != 0 && !strchr("\\^$.[|()?*+{# \t\n\v\f\r", sym)); } p_ch(sym); w_item(lit(sym)); break;
		case T_SP: p_put(" "); if (cf & FX) { q = lv[nlv - 1].last >= 0; } else w_item(lit(' ')); break;
		case T_COM: p_put("#b\n"); if (cf & FX) q = lv[nlv - 1].last >= 0; else { w_item(lit('#')); w_item(lit('b')); w_item(lit('\n')); } break;
		case T_OPEN: p_put("("); w_open(); q = 0; break;
		case T_NCOPEN: p_put("(?:"); w_open(); q = 0; break;
		
		case T_IOPEN: p_put("(?i:"); w_open(); cf |= FI; q = 0; break;
		case T_CLOSE: p_put(")"); { unsigned e = w_close(); w_item(e); } break;
		case T_BAR: p_put("|"); w_alt(); q = 0; break;
		case T_STAR: p_put("*"); w_quant(0, RINF); q = 0; break;
		case T_PLUS: p_put("+"); w_quant(1, RINF); q = 0; break;
		case T_OPT: p_put("?"); w_quant(0, 1); q = 0; break;
		case T_R0: p_put("{0}"); w_quant(0, 0); q = 0; break;
		case T_R2: p_put("{2}"); w_quant(2, 2); q = 0; break;
		case T_R12: p_put("{1,2}"); w_quant(1, 2); q = 0; break;
		case T_R0I: p_put("{0,}"); w_quant(0, RINF); q = 0; break;
		case T_R2I: p_put("{2,}"); w_quant(2, RINF); q = 0; break;
		case T_R02: p_put("{0,2}"); w_quant(0, 2); q = 0; break;
		case T_R1: p_put("{1}"); w_quant(1, 1); q = 0; break;
		case T_FI: p_put("(?i)"); w_flush(); cf |= FI; q = 0; break;
		case T_FNI: p_put("(?-i)"); w_flush(); cf &= ~FI; q = 0; break;
		case T_FS: p_put("(?s)"); w_flush(); cf |= FS; q = 0; break;
		case T_FX: p_put("(?x)"); w_flush(); cf |= FX; q = 0; break;
		}
	}
	sx_assume(nlv == 1);
}
/* anchors in places the library does not handle, and a repeated group with an empty alternative, are reported as unsupported */
static int maybe_unsupported(void) { return rerr.e == RE_EUNSUPPORTED && (r_has & 1 || (r_has & 6) == 6); }
#ifdef HOOK
static void HOOK(enum re_dialect d, unsigned flags);
#endif
static void compare(unsigned e, unsigned flags) {
#ifdef HOOK
	(void) e; HOOK(RE_PCRE, flags); return;
#endif
	struct fsm *f = r_comp(RE_PCRE, flags);
	if (!f && sx_param("survey", 0)) { if (!maybe_unsupported()) { strcat(p_text, " REJECTED"); sx_reach(p_text); } return; }
	if (!f) { sx_assert(maybe_unsupported(), "a pattern of the supported subset is rejected"); sx_reach("unsupported"); NO_LEAK("re_comp"); return; }
	r_ext(&want, e, (flags & RE_ANCHORED) != 0); x_of_re(&got, f);
	if (sx_param("survey", 0)) { if (!(flags & RE_REVERSE) && x_differ(&want, &got)) sx_reach(p_text); fsm_free(f); return; }
	if (flags & RE_REVERSE) { r_reverse(&rev, &want); x_lang(&rev, &got, "the reversed pattern does not have the reversed language"); }
	else x_lang(&want, &got, "the automaton does not accept the language of the pattern");
	sx_reach("compared"); fsm_free(f); NO_LEAK("re_comp");
}
static const unsigned fl[] = { 0, RE_ICASE, RE_SINGLE, RE_EXTENDED, RE_ANCHORED, RE_REVERSE, RE_ICASE | RE_SINGLE | RE_EXTENDED | RE_ANCHORED };
void h_tokens(void) {
	unsigned k = sx_param("flags", 0), flags = k < 7 ? fl[k] : fl[sx_choice("flags", 7)]; anch = (flags & RE_ANCHORED) != 0;
	w_begin((flags & RE_ICASE ? FI : 0) | (flags & RE_SINGLE ? FS : 0) | (flags & RE_EXTENDED ? FX : 0));
	draw(alpha[sx_param("alphabet", 0)], sx_param("N", 4)); w_alt(); compare(lv[0].alt, flags);
}
/* tables of the named classes, in the C locale */
static int tab(uint8_t *t, const char *name) {
	unsigned c; int neg = 0, hit = 0; memset(t, 0, 256);
	static const char *const n[] = { "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit", "d", "h", "s", "v", "w", "N", 0 };
	unsigned k; const char *b = name; char low[2] = { 0, 0 };
	if (!name[1] && name[0] >= 'A' && name[0] <= 'Z' && name[0] != 'N') { neg = 1; low[0] = name[0] + 32; b = low; }
	for (k = 0; n[k]; k++) if (!strcmp(n[k], b)) { hit = 1; break; }
	if (!hit) return 0;
	for (c = 0; c < 256; c++) {
		int dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', v;
		switch (k) {
		case 0: v = dg || up || lo; break; case 1: v = up || lo; break; case 2: v = c < 128; break; case 3: v = c == 9 || c == 32; break;
		case 4: v = c < 32 || c == 127; break; case 5: case 14: v = dg; break; case 6: v = c > 32 && c < 127; break; case 7: v = lo; break;
		case 8: v = c >= 32 && c < 127; break; case 9: v = c > 32 && c < 127 && !dg && !up && !lo; break; case 10: case 16: v = (c >= 9 && c <= 13) || c == 32; break;
		case 11: v = up; break; case 12: case 18: v = dg || up || lo || c == '_'; break; case 13: v = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); break;
		case 15: v = c == 9 || c == 32 || c == 0xa0; break; case 17: v = (c >= 10 && c <= 13) || c == 0x85; break; default: v = c != '\n'; }
		t[c] = v != neg;
	}
	return 1;
}
static unsigned xflags(void) { unsigned k = sx_choice("flags", 5); static const unsigned f[] = { 0, RE_ICASE, RE_SINGLE, RE_EXTENDED, RE_ANCHORED }; unsigned flags = f[k]; w_begin((flags & RE_ICASE ? FI : 0) | (flags & RE_SINGLE ? FS : 0) | (flags & RE_EXTENDED ? FX : 0)); return flags; }
static int alnum(unsigned c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
/* a single unconstrained byte, bare or after a backslash, alone or between two literals */
void h_byte(void) {
	unsigned flags = xflags(), esc = sx_choice("escaped", 2), between = sx_choice("between", 2), c, e = 0, k; uint8_t t[256]; char nm[2] = { 0, 0 };
	if (between) { p_put("x"); w_item(lit('x')); }
	if (!esc) {
		c = sx_byte("byte"); sx_assume(c != 0); if (sx_fork(c < 128)) sx_assume(!strchr("\\^$.[|()?*+{# \t\n\v\f\r", c));
		p_ch(c); w_item(lit(c));
	} else {
		k = sx_choice("kind", 3); p_put("\\");
		if (k == 0) { static const char nl[] = "aefnrt0x"; static const uint8_t v[] = { 7, 27, 12, 10, 13, 9, 0, 0 }; unsigned i = sx_choice("which", 8); p_ch(nl[i]); w_item(lit(v[i])); }
		else if (k == 1) { static const char nl[] = "dDhHsSvVwWNR"; unsigned i = sx_choice("which", 12); nm[0] = nl[i]; p_ch(nl[i]);
			if (nl[i] != 'R') { tab(t, nm); e = r_table(t); }
			else { tab(t, "v"); e = r_table(t); e = r_new(R_ALT, e, r_new(R_CAT, r_sym('\r', 0), r_sym('\n', 0))); }
			w_item(e); }
		else { c = sx_byte("byte"); sx_assume(c != 0); sx_assume(!alnum(c)); p_ch(c); w_item(lit(c)); }
	}
	if (between) { p_put("y"); w_item(lit('y')); }
	w_alt(); compare(lv[0].alt, flags);
}
/* bytes given by number */
static const char hex[] = "0123456789abcdefABCDEF";
static unsigned hexv(unsigned i) { return i < 16 ? i : i - 6; }
void h_code(void) {
	unsigned flags = xflags(), k = sx_choice("kind", 8), a, b, c, v = 0, in = sx_choice("in a class", 2); int bad = 0;
	if (in) p_put("[");
	switch (k) {
	case 0: a = sx_choice("d", 22); b = sx_choice("d", 22); p_put("\\x"); p_ch(hex[a]); p_ch(hex[b]); v = hexv(a) * 16 + hexv(b); break;
	case 1: a = sx_choice("d", 22); p_put("\\x"); p_ch(hex[a]); v = hexv(a); break;
	case 2: a = sx_choice("d", 22); b = sx_choice("d", 22); p_put("\\x{"); p_ch(hex[a]); p_ch(hex[b]); p_put("}"); v = hexv(a) * 16 + hexv(b); break;
	case 3: a = sx_choice("d", 16); p_put("\\x{"); p_ch(hex[a]); p_put("0F}"); v = a * 256 + 15; break;
	case 4: a = sx_choice("d", 8); b = sx_choice("d", 8); p_put("\\0"); p_ch('0' + a); p_ch('0' + b); v = a * 8 + b; break;
	case 5: a = sx_choice("d", 8); p_put("\\0"); p_ch('0' + a); v = a; break;
	case 6: a = sx_choice("d", 8); b = sx_choice("d", 8); c = sx_choice("d", 8); p_put("\\o{"); p_ch('0' + a); p_ch('0' + b); p_ch('0' + c); p_put("}"); v = a * 64 + b * 8 + c; break;
	default: c = 1 + sx_choice("c", 255); sx_assume(c != '\n'); p_put("\\c"); p_ch(c); if (c < 32 || c > 126) bad = 1; if (c >= 'a' && c <= 'z') c -= 32; v = c ^ 64; break;
	}
	if (in) p_put("]");
	if (v > 255) bad = 1;
	if (bad) { struct fsm *f = r_comp(RE_PCRE, flags); sx_assert(!f, "a number out of range is accepted"); sx_reach("rejected"); NO_LEAK("re_comp"); return; }
	if (k == 7 && in) { struct fsm *f = r_comp(RE_PCRE, flags); if (!f) { sx_reach("unsupported"); NO_LEAK("re_comp"); return; } fsm_free(f); } /* \c in a class is reported as unsupported */
	/* followed by a digit that does not belong to it */
	if (sx_choice("followed", 2) && (k == 0 || k == 2 || k == 4 || k == 6)) { w_item(lit(v)); p_put("1"); w_item(lit('1')); } else w_item(lit(v));
	w_alt(); compare(lv[0].alt, flags);
}
/* bracket expressions */
static const char *const posix[] = { "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit" };
static int c_item(uint8_t *t, unsigned kinds) { /* 1: no such range */
	unsigned k = sx_choice("item", kinds), i, j; uint8_t u[256]; char nm[2] = { 0, 0 };
	switch (k) {
	case 0: p_put("a"); t['a'] = 1; break;
	case 1: p_put("\\n"); t['\n'] = 1; break;
	case 2: p_put("B-D"); for (i = 'B'; i <= 'D'; i++) t[i] = 1; break;
	case 3: { static const char nl[] = "dDsSwWhHvV"; nm[0] = nl[sx_choice("class", 10)]; p_put("\\"); p_put(nm); tab(u, nm); for (i = 0; i < 256; i++) t[i] |= u[i]; break; }
	case 4: { const char *n = posix[sx_choice("posix", 14)]; p_put("[:"); p_put(n); p_put(":]"); tab(u, n); for (i = 0; i < 256; i++) t[i] |= u[i]; break; }
	case 5: { static const char sp[] = ".|()*+?${}#^ "; unsigned c = sp[sx_choice("special", 13)]; sx_assume(c != '^' || pt[npt - 1] != '['); p_ch(c); t[c] = 1; break; }
	case 6: { static const char *const es[] = { "\\\\", "\\]", "\\-", "\\^", "\\[", "\\b", "\\e", "\\a", "\\t", "\\f", "\\r", "\\.", "\\/" }; static const uint8_t v[] = { '\\', ']', '-', '^', '[', 8, 27, 7, 9, 12, 13, '.', '/' }; i = sx_choice("escape", 13); p_put(es[i]); t[v[i]] = 1; break; }
	case 7: p_put("\\xff"); t[255] = 1; break;
	case 8: { /* a range between any two bytes */
		static const char *const m[] = { "%c-%c", "\\x%02x-\\x%02x", "\\o{%o}-\\x{%x}", "%c-\\x%02x", "\\x%02x-\\o{%o}", "\\x%02x-\\%03o" }; unsigned w = sx_choice("written", 7); char b[40];
		if (w == 6) { /* escapes that are names */
			static const char *const es[] = { "\\t", "\\n", "\\f", "\\r", "\\[", "\\\\", "\\^", "\\-", "\\a", "\\e", "\\b" }; static const uint8_t v[] = { 9, 10, 12, 13, '[', '\\', '^', '-', 7, 27, 8 }; unsigned x = sx_choice("from", 11), y = sx_choice("to", 11);
			p_put(es[x]); p_put("-"); p_put(es[y]); for (i = v[x]; i <= v[y]; i++) t[i] = 1; return v[x] > v[y]; }
		i = sx_choice("from", 256); switch (sx_choice("to", 6)) { case 0: j = i; break; case 1: j = i + 1; break; case 2: j = i + 40; break; case 3: j = 255; break; case 4: j = i ^ 32; break; default: j = i - 1; }
		sx_assume(j < 256);
		if (w == 5) sx_assume(j < 64); if (w == 0 || w == 3) { int first = pt[npt - 1] == '[' || (pt[npt - 1] == '^' && pt[npt - 2] == '['); sx_assume(i != 0 && i < 128 && i != '\\' && i != '\n' && (first || (i != '-' && i != ']')) && (i != '^' || pt[npt - 1] != '[')); } if (w == 0) sx_assume(j != 0 && j != '\\' && j != ']' && j != '\n');
		sprintf(b, m[w], i, j); p_put(b); if (w == 0 && j == '-') { p_put("a"); t['a'] = 1; } /* the authors read -] as one */ if (j < i) return 1;
		for (; i <= j; i++) t[i] = 1; break; }
	}
	return 0;
}
void h_class(void) {
	uint8_t t[256]; unsigned flags = xflags(), N = sx_param("N", 2), neg = sx_choice("negated", 2), lead = sx_choice("lead", 3), i, kinds = sx_param("kinds", 9), n; int bad = 0;
	memset(t, 0, sizeof t); p_put(neg ? "[^" : "[");
	if (lead == 1) { p_put("]"); t[']'] = 1; } else if (lead == 2) { p_put("-"); t['-'] = 1; }
	n = 1 + sx_choice("items", N);
	for (i = 0; i < n; i++) bad |= c_item(t, i == 0 ? kinds : kinds > 6 ? 4 : kinds);
	if (sx_choice("trail", 2)) { p_put("-"); t['-'] = 1; }
	p_put("]");
	if (cf & FI) r_fold(t);
	if (neg) for (i = 0; i < 256; i++) t[i] = !t[i];
	if (bad) { struct fsm *f = r_comp(RE_PCRE, flags); sx_assert(!f, "a range in the wrong order is accepted"); sx_reach("rejected"); NO_LEAK("re_comp"); return; }
	for (i = 0; i < 256; i++) if (t[i]) break;
	sx_assume(i < 256);
	w_item(r_table(t)); if (sx_choice("then", 2)) { p_put("]"); w_item(lit(']')); }
	w_alt(); compare(lv[0].alt, flags);
}
/* counts with digits drawn */
void h_count(void) {
	unsigned flags = 0, M = sx_param("M", 12), m = sx_choice("m", M), form = sx_choice("form", 3), n, what = sx_choice("what", 4); char b[20];
	w_begin(0);
	if (what == 0) { p_put("a"); w_item(lit('a')); } else if (what == 1) { p_put("(?:ab|)"); w_open(); w_item(lit('a')); w_item(lit('b')); w_alt(); w_item(w_close()); } else if (what == 2) { p_put("(a?b)"); w_open(); w_item(lit('a')); w_quant(0, 1); w_item(lit('b')); w_item(w_close()); } else { p_put("^(a|b?c)"); w_item(r_new(R_BOL, 0, 0)); w_open(); w_item(lit('a')); w_alt(); w_item(lit('b')); w_quant(0, 1); w_item(lit('c')); w_item(w_close()); }
	if (form == 0) { sprintf(b, "{%u}", m); n = m; } else if (form == 1) { sprintf(b, "{%u,}", m); n = RINF; } else { n = sx_choice("n", M); sprintf(b, "{%u,%u}", m, n); }
	p_put(b);
	if (n < m) { struct fsm *f = r_comp(RE_PCRE, flags); sx_assert(!f, "a count in the wrong order is accepted"); sx_reach("rejected"); NO_LEAK("re_comp"); return; }
	w_quant(m, n); if (sx_choice("then", 2)) { p_put("c$"); w_item(lit('c')); w_item(r_new(R_EOLNL, 0, 0)); }
	w_alt(); compare(lv[0].alt, flags);
}
#define NATIVE_COUNTS 0
#include "nested.h"
#include "similar.h"
/* outside the subset: reported, not given another meaning */
void h_outside(void) {
	static const char *const s[] = { "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "a*?", "a+?", "a??", "a*+", "a++", "a?+", "a{1,2}?", "a{1,2}+", "\\b", "\\B", "\\G", "\\K", "\\C", "\\X", "\\1", "(a)\\1", "\\g1", "\\k<n>", "(?R)", "(?1)", "(?+1)", "(?&n)", "(?P>n)", "(*ACCEPT)", "(*FAIL)", "(*CRLF)", "(*atomic:a)", "(*pla:a)", "(?m)^a", "(?J)", "(?U)a", "(?xx)a", "(?|a|b)", "\\p{L}", "\\P{L}", "[[:^alpha:]]", "(?C1)a", "(?(1)a|b)", "(?i", "(", ")", "a)", "[", "[a", "a{1", "*a", "+", "?", "a{2,1}", "[b-a]", "\\x{100}", "\\o{400}", "[a-\\d]", "(?<n>a)\\k{n}", "a**" };
	/* those PCRE gives no meaning, or another than the text read without them; a rejection is right for each */
	unsigned i = sx_choice("pattern", sizeof s / sizeof *s); w_begin(0); p_put(s[i]); if (sx_choice("then", 2)) p_put("b");
	struct fsm *f = r_comp(RE_PCRE, 0); sx_assert(!f, "a construct outside the subset is accepted"); sx_assert(rerr.e != RE_ESUCCESS, "no error is reported"); sx_reach("rejected"); NO_LEAK("re_comp");
}
/* genuine defects that are not repaired (known_findings.txt) */
void h_known(void) {
	w_begin(0);
	switch (sx_choice("which", 5)) {
	case 0: p_put("(a$)\\z"); w_item(lit('a')); w_item(r_new(R_EOL, 0, 0)); break;
	case 1: p_put("a$()\\z"); w_item(lit('a')); w_item(r_new(R_EOL, 0, 0)); break;
	case 2: { p_put("a(?#"); struct fsm *f = r_comp(RE_PCRE, 0); sx_assert(!f, "a comment that does not end is accepted"); return; }
	case 3: { p_put("[[.a.]]"); struct fsm *f = r_comp(RE_PCRE, 0); sx_assert(!f, "a collating element is taken for a set"); return; }
	default: { p_put("(*)"); struct fsm *f = r_comp(RE_PCRE, 0); sx_assert(!f, "(*) is accepted"); return; }
	}
	w_alt(); compare(lv[0].alt, 0);
}
void h_ranges(void) {
	uint8_t t[256]; unsigned flags = sx_choice("icase", 2) ? RE_ICASE : 0, i, k; memset(t, 0, sizeof t); w_begin(flags ? FI : 0); p_put("["); k = c_item(t, 9); p_put("]");
		if (k) { struct fsm *f = r_comp(RE_PCRE, flags); sx_assert(!f, "a range in the wrong order is accepted"); sx_reach("rejected"); NO_LEAK("re_comp"); return; }
	if (flags) r_fold(t);
	for (i = 0; i < 256; i++) if (t[i]) break;
	sx_assume(i < 256);
	w_item(r_table(t)); w_alt(); compare(lv[0].alt, flags);
}
