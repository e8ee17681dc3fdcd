/* alternatives that differ in one respect: every pair from a list (NATIVE_COUNTS: the native dialect) */
static unsigned r_set(const char *s) { uint8_t t[256]; memset(t, 0, sizeof t); for (; *s; s += 2) { unsigned c; for (c = (unsigned char) s[0]; c <= (unsigned char) s[1]; c++) t[c] = 1; } if (cf & FI) r_fold(t); return r_table(t); }
static unsigned r_not(const char *s) { uint8_t t[256]; unsigned i; memset(t, 1, sizeof t); for (; *s; s += 2) { unsigned c; for (c = (unsigned char) s[0]; c <= (unsigned char) s[1]; c++) t[c] = 0; } if (cf & FI) for (i = 'A'; i <= 'Z'; i++) t[i] = t[i + 32] = t[i] & t[i + 32]; return r_table(t); }
enum { SIM_COMMON = 30 };
static void sim(unsigned k) {
#define IT(text, e) p_put(text); w_item(e); return
#define Q(text, e, m, n) p_put(text); w_item(e); w_quant(m, n); return
#define T2(text, e, f) p_put(text); w_item(e); w_item(f); return
	unsigned e;
	switch (k) {
	case 0: IT("a", lit('a'));
	case 1: IT("A", lit('A'));
	case 2: IT("[a-c]", r_set("ac"));
	case 3: IT("[a-f]", r_set("af"));
	case 4: IT("[b-f]", r_set("bf"));
	case 5: IT("[^a-c]", r_not("ac"));
	case 6: IT("[^a-f]", r_not("af"));
	case 7: IT("[ad]", r_set("aadd"));
	case 8: IT("[a-cx]", r_set("acxx"));
	case 9: Q("a?", lit('a'), 0, 1);
	case 10: Q("a*", lit('a'), 0, RINF);
	case 11: Q("a+", lit('a'), 1, RINF);
	case 12: Q("a{2}", lit('a'), 2, 2);
	case 13: Q("a{2,3}", lit('a'), 2, 3);
	case 14: Q("a{2,5}", lit('a'), 2, 5);
	case 15: Q("a{3,5}", lit('a'), 3, 5);
	case 16: Q("b*", lit('b'), 0, RINF);
	case 17: T2("ab", lit('a'), lit('b'));
	case 18: T2("ac", lit('a'), lit('c'));
	case 19: p_put("ab[a-c]"); w_item(lit('a')); w_item(lit('b')); w_item(r_set("ac")); return;
	case 20: p_put("(a)"); w_open(); w_item(lit('a')); e = w_close(); w_item(e); return;
	case 21: p_put("(b)"); w_open(); w_item(lit('b')); e = w_close(); w_item(e); return;
	case 22: p_put("(a|b)"); w_open(); w_item(lit('a')); w_alt(); w_item(lit('b')); e = w_close(); w_item(e); return;
	case 23: p_put("(a|c|b)"); w_open(); w_item(lit('a')); w_alt(); w_item(lit('c')); w_alt(); w_item(lit('b')); e = w_close(); w_item(e); return;
	case 24: p_put("(ab)*"); w_open(); w_item(lit('a')); w_item(lit('b')); e = w_close(); w_item(e); w_quant(0, RINF); return;
	case 25: p_put("(ab?)*"); w_open(); w_item(lit('a')); w_item(lit('b')); w_quant(0, 1); e = w_close(); w_item(e); w_quant(0, RINF); return;
	case 26: IT(".", r_any(cf & FS));
	case 27: IT("[[:digit:]]", r_set("09"));
	case 28: IT("[[:xdigit:]]", r_set("09afAF"));
	case 29: IT("[^[:digit:]]", r_not("09"));
#if !NATIVE_COUNTS
	case 30: T2("a$", lit('a'), r_new(R_EOLNL, 0, 0));
	case 31: T2("a\\z", lit('a'), r_new(R_EOL, 0, 0));
	case 32: p_put("(?i:a)"); w_open(); cf |= FI; w_item(lit('a')); e = w_close(); w_item(e); return;
	case 33: p_put("(?i:[a-c])"); w_open(); cf |= FI; w_item(r_set("ac")); e = w_close(); w_item(e); return;
	case 34: p_put("(?s:.)"); w_open(); cf |= FS; w_item(r_any(1)); e = w_close(); w_item(e); return;
	case 35: p_put("(?:ab|)"); w_open(); w_item(lit('a')); w_item(lit('b')); w_alt(); e = w_close(); w_item(e); return;
	case 36: IT("\\d", r_set("09"));
	case 37: IT("\\w", r_set("azAZ09__"));
	case 38: IT("\\x61", lit('a'));
	case 39: Q("a{2,}", lit('a'), 2, RINF);
	case 40: Q("a{3,}", lit('a'), 3, RINF);
	case 41: p_put("(?i:ab)"); w_open(); cf |= FI; w_item(lit('a')); w_item(lit('b')); e = w_close(); w_item(e); return;
	case 42: p_put("(?:a*)+"); w_item(lit('a')); w_quant(0, RINF); return;
#endif
	}
}
void h_similar(void) {
	unsigned all = NATIVE_COUNTS ? SIM_COMMON : 43, x = sx_choice("first", all), y = sx_choice("second", all), third = sx_choice("third", sx_param("thirds", 1) + 1), around = sx_choice("around", sx_param("arounds", 3));
	w_begin(0);
	if (around == 1) { p_put("^x"); w_item(r_new(R_BOL, 0, 0)); w_item(lit('x')); } else { p_put("^"); w_item(r_new(R_BOL, 0, 0)); }
	p_put("("); w_open(); sim(x); p_put("|"); w_alt(); sim(y); if (third) { p_put("|"); w_alt(); sim(third * 7 % all); } p_put(")"); { unsigned e = w_close(); w_item(e); }
	if (around == 2) { p_put("*"); w_quant(0, RINF); }
	p_put("$"); w_item(r_new(NATIVE_COUNTS ? R_EOL : R_EOLNL, 0, 0));
	w_alt(); compare(lv[0].alt, 0);
}
