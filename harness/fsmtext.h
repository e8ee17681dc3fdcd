/* A reader of the fsm text format; the file that includes it defines IDS and NIDS. */
static const char *ft_p; static unsigned ft_order[2048], ft_norder; static unsigned char ft_seen[2048];
static void ft_ws(void) { for (;;) { if (*ft_p == ' ' || *ft_p == '\n') ft_p++; else if (*ft_p == '#') { while (*ft_p && *ft_p != '\n') ft_p++; } else break; } }
static unsigned ft_num(void) { unsigned v = 0; sx_assert(*ft_p >= '0' && *ft_p <= '9', "a number was expected in the text"); while (*ft_p >= '0' && *ft_p <= '9') v = v * 10 + (*ft_p++ - '0'); return v; }
static unsigned ft_state(unsigned n) { unsigned v = ft_num(); sx_assert(v < n, "a state that does not exist in the text"); if (!ft_seen[v]) { ft_seen[v] = 1; ft_order[ft_norder++] = v; } return v; }
static unsigned ft_hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : 99; }
static unsigned ft_chr(void) { unsigned c;
	sx_assert(*ft_p == '"', "a label was expected in the text"); ft_p++;
	if (*ft_p != '\\') { c = (unsigned char) *ft_p; sx_assert(c >= 32 && c < 127 && c != '"', "a raw byte in a label that is not printable"); ft_p++; }
	else { ft_p++; switch (*ft_p) { case 'f': c = '\f'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 't': c = '\t'; break; case 'v': c = '\v'; break;
		case 'x': c = ft_hexd(ft_p[1]) * 16 + ft_hexd(ft_p[2]); sx_assert(c < 256, "bad hexadecimal escape"); ft_p += 2; break; default: c = (unsigned char) *ft_p; sx_assert(c == '\\' || c == '"' || c == '\'', "unknown escape"); } ft_p++; }
	sx_assert(*ft_p == '"', "a label is not closed"); ft_p++; return c; }
static int ft_lit(const char *s) { size_t n = strlen(s); if (strncmp(ft_p, s, n)) return 0; ft_p += n; return 1; }
static unsigned ft_idcolour(unsigned v) { unsigned k; for (k = 0; k < NIDS; k++) if (IDS[k] == v) break; sx_assert(k < NIDS, "an end id in the text that was never set"); return 1u << (1 + k); }
static void ft_read(struct ext *x, const char *t, unsigned n) {
	x_init(x, n); ft_p = t; ft_norder = 0; memset(ft_seen, 0, sizeof ft_seen);
	for (;;) {
		unsigned a, b, lo, hi; ft_ws();
		if (*ft_p == 's' || *ft_p == 'e' || !*ft_p) break;
		a = ft_state(n); ft_ws(); if (ft_lit(";")) continue;
		sx_assert(ft_lit("->"), "-> expected in the text"); ft_ws(); b = ft_state(n); ft_ws();
		if (ft_lit(";")) { x_eps(x, a, b); continue; }
		if (ft_lit("?")) { x_edge(x, a, b, 0, 255); ft_ws(); sx_assert(ft_lit(";"), "; expected in the text"); continue; }
		for (;;) { lo = hi = ft_chr(); ft_ws(); if (ft_lit("..")) { ft_ws(); hi = ft_chr(); sx_assert(lo < hi, "an empty range"); ft_ws(); } x_edge(x, a, b, lo, hi); if (!ft_lit(",")) break; ft_ws(); }
		sx_assert(ft_lit(";"), "; expected in the text");
	}
	if (ft_lit("start:")) { ft_ws(); x->hasstart = 1; x->start = ft_state(n); ft_ws(); sx_assert(ft_lit(";"), "; expected in the text"); ft_ws(); }
	if (ft_lit("end:")) for (;;) { unsigned s; ft_ws(); s = ft_state(n); x_end(x, s); ft_ws();
		if (ft_lit("=")) { ft_ws(); sx_assert(ft_lit("["), "[ expected in the text"); for (;;) { ft_ws(); x_col(x, s, ft_idcolour(ft_num())); ft_ws(); if (ft_lit("]")) break; sx_assert(ft_lit(","), ", expected in the text"); } ft_ws(); }
		if (ft_lit(";")) break; sx_assert(ft_lit(","), ", expected in the text"); }
	ft_ws(); sx_assert(!*ft_p, "text after the end of the text");
}
