/* counts nested in counts: every pair (triple) below M, groups that capture or not */
static unsigned n_count(unsigned M, const char *what, const char *form, unsigned *m, unsigned *n) {
	char b[20]; unsigned f = sx_choice(form, NATIVE_COUNTS ? 5 : 6);
	*m = 0; *n = RINF;
	if (f == 0) { p_put("*"); return 0; }
	if (f == 1) { p_put("+"); *m = 1; return 0; }
	if (f == 2) { p_put("?"); *n = 1; return 0; }
	*m = sx_choice(what, M);
	if (f == 3) { sprintf(b, "{%u}", *m); *n = *m; } else if (f == 5) sprintf(b, "{%u,}", *m); else { *n = *m + sx_choice("more", M); sprintf(b, "{%u,%u}", *m, *n); }
	p_put(b); return 0;
}
void h_nested(void) {
	unsigned M = sx_param("M", 3), levels = 2 + sx_choice("third", sx_param("levels", 2) - 1), what = sx_choice("what", levels > 2 ? 1 : 3), cap = NATIVE_COUNTS ? 1 : sx_choice("captures", 2), i, m, n;
	w_begin(0);
	for (i = 1; i < levels; i++) { p_put(cap ? "(" : "(?:"); w_open(); }
	if (what == 0) { p_put("a"); w_item(lit('a')); } else if (what == 1) { p_put("(a|bc)"); w_open(); w_item(lit('a')); w_alt(); w_item(lit('b')); w_item(lit('c')); w_item(w_close()); } else { p_put(NATIVE_COUNTS ? "(ab?)" : "(?:a|)"); w_open(); w_item(lit('a')); if (NATIVE_COUNTS) { w_item(lit('b')); w_quant(0, 1); } else w_alt(); w_item(w_close()); }
	for (i = 0; i < levels; i++) {
		if (i) { p_put(")"); w_item(w_close()); }
		n_count(i > 1 ? 3 : M, "m", "form", &m, &n); w_quant(m, n);
	}
	if (sx_choice("then", 2)) { p_put("c"); w_item(lit('c')); }
	w_alt(); compare(lv[0].alt, 0);
}
