#include "h.h"
/* The fsm text format, JSON: what is printed describes the automaton; what is read back is the automaton. */
static const fsm_end_id_t IDS[] = { 0, 7, 9, 10, 15, 16, 31, 100, 4095, 65536, 4294967294u };
#define NIDS (sizeof IDS / sizeof *IDS)
/* ---- a reader of its own for the text format */
static const char *P; static unsigned order[2048], norder; static unsigned char seen[2048];
static void ws(void) { for (;;) { if (*P == ' ' || *P == '\n') P++; else if (*P == '#') { while (*P && *P != '\n') P++; } else break; } }
static unsigned num(void) { unsigned v = 0; sx_assert(*P >= '0' && *P <= '9', "a number was expected in the text"); while (*P >= '0' && *P <= '9') v = v * 10 + (*P++ - '0'); return v; }
static unsigned state(unsigned n) { unsigned v = num(); sx_assert(v < n, "a state that does not exist in the text"); if (!seen[v]) { seen[v] = 1; order[norder++] = v; } return v; }
static unsigned hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : 99; }
static unsigned chr(void) { unsigned c;
	sx_assert(*P == '"', "a label was expected in the text"); P++;
	if (*P != '\\') { c = (unsigned char) *P; sx_assert(c >= 32 && c < 127 && c != '"', "a raw byte in a label that is not printable"); P++; }
	else { P++; switch (*P) { case 'f': c = '\f'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 't': c = '\t'; break; case 'v': c = '\v'; break;
		case 'x': c = hexd(P[1]) * 16 + hexd(P[2]); sx_assert(c < 256, "bad hexadecimal escape"); P += 2; break; default: c = (unsigned char) *P; sx_assert(c == '\\' || c == '"' || c == '\'', "unknown escape"); } P++; }
	sx_assert(*P == '"', "a label is not closed"); P++; return c; }
static int lit(const char *s) { size_t n = strlen(s); if (strncmp(P, s, n)) return 0; P += n; return 1; }
static unsigned idcolour(unsigned v) { unsigned k; for (k = 0; k < NIDS; k++) if (IDS[k] == v) break; sx_assert(k < NIDS, "an end id in the text that was never set"); return 1u << (1 + k); }
static void read_text(struct ext *x, const char *t, unsigned n) {
	x_init(x, n); P = t; norder = 0; memset(seen, 0, sizeof seen);
	for (;;) {
		unsigned a, b, lo, hi; ws();
		if (*P == 's' || *P == 'e' || !*P) break;
		a = state(n); ws(); if (lit(";")) continue;
		sx_assert(lit("->"), "-> expected in the text"); ws(); b = state(n); ws();
		if (lit(";")) { x_eps(x, a, b); continue; }
		if (lit("?")) { x_edge(x, a, b, 0, 255); ws(); sx_assert(lit(";"), "; expected in the text"); continue; }
		for (;;) { lo = hi = chr(); ws(); if (lit("..")) { ws(); hi = chr(); sx_assert(lo < hi, "an empty range"); ws(); } x_edge(x, a, b, lo, hi); if (!lit(",")) break; ws(); }
		sx_assert(lit(";"), "; expected in the text");
	}
	if (lit("start:")) { ws(); x->hasstart = 1; x->start = state(n); ws(); sx_assert(lit(";"), "; expected in the text"); ws(); }
	if (lit("end:")) for (;;) { unsigned s; ws(); s = state(n); x_end(x, s); ws();
		if (lit("=")) { ws(); sx_assert(lit("["), "[ expected in the text"); for (;;) { ws(); x_col(x, s, idcolour(num())); ws(); if (lit("]")) break; sx_assert(lit(","), ", expected in the text"); } ws(); }
		if (lit(";")) break; sx_assert(lit(","), ", expected in the text"); }
	ws(); sx_assert(!*P, "text after the end of the text");
}
static unsigned sum(const struct ext *x, unsigned a, unsigned b) { unsigned i, n = 0; for (i = 0; i < x->ne; i++) if (x->e[i].from == a && x->e[i].to == b) n += x->e[i].eps ? 1000 : x->e[i].hi - x->e[i].lo + 1; return n; }
static unsigned sto2(unsigned n) { unsigned v = num(); sx_assert(v < n, "a state that does not exist in DOT"); return v; }
static void same(const struct ext *a, const struct ext *b, int ids, const char *m) { unsigned i, j;
	sx_assert(x_eq(a, b), m);
	for (i = 0; i < a->n; i++) { sx_assert((a->col[i] & (ids ? ~0u : 1)) == (b->col[i] & (ids ? ~0u : 1)), m); for (j = 0; j < a->n; j++) sx_assert(sum(a, i, j) == sum(b, i, j), m); }
}
static void opts(struct fsm_options *o, unsigned m) { memset(o, 0, sizeof *o); o->always_hex = m & 1; o->comments = m >> 1 & 1; o->anonymous_states = m >> 2 & 1; o->consolidate_edges = m >> 3 & 1; o->group_edges = m >> 4 & 1; o->fragment = m >> 5 & 1; o->case_ranges = m >> 6 & 1; }
static const char *print(const struct fsm *f, unsigned m, enum fsm_print_lang l, size_t *n, FILE **w) { struct fsm_options o; opts(&o, m); *w = sx_mem_writer(); sx_assert(0 == fsm_print(*w, f, &o, NULL, l), "printing failed"); return sx_mem_data(*w, n); }
static void text(const struct fsm *f, const struct ext *x, unsigned m) {
	static struct ext y, z; size_t n; FILE *w, *r; const char *t = print(f, m, FSM_PRINT_FSM, &n, &w); struct fsm *g; unsigned i;
	sx_assert(strlen(t) == n, "NUL in the text");
	read_text(&y, t, x->n); same(x, &y, 1, "the text does not describe the automaton");
	if (!(m & 4)) sx_assert(norder == x->n, "a state is not named");
	if (!(m & 16)) { /* what group_edges prints is not in the language of the parser */
		static struct ext q; unsigned char back[2048];
		r = sx_mem_reader(t, n); g = fsm_parse(r, NULL); sx_assert(g != NULL, "the text was not read"); sx_mem_close(r);
		x_of(&z, g); x_ids(&z, g, IDS, NIDS, NULL, 0);
		sx_assert(z.n == norder, "reading made another number of states"); for (i = 0; i < norder; i++) back[order[i]] = i;
		x_init(&q, z.n); q.hasstart = x->hasstart; if (q.hasstart) q.start = back[x->start];
		for (i = 0; i < x->ne; i++) if (x->e[i].eps) x_eps(&q, back[x->e[i].from], back[x->e[i].to]); else x_edge(&q, back[x->e[i].from], back[x->e[i].to], x->e[i].lo, x->e[i].hi);
		for (i = 0; i < x->n; i++) if (seen[i]) x_col(&q, back[i], x->col[i]); else sx_assert(!x->col[i], "an accepting state is not in the text");
		same(&q, &z, 1, "the automaton read back is another one");
		if (!(m & 4)) for (i = 0; i < norder; i++) sx_assert(order[i] == i, "states in another order");
		fsm_free(g); sx_reach("read back");
	}
	sx_mem_close(w); sx_reach("printed");
}
/* ---- labels for people: a class of bytes as bm_print() writes it. Some reading of the label has to be the set: a raw '-', '\\' or '^' can be meant either way */
static const unsigned char *T, *TE; static int fdot;
static unsigned lch(unsigned *bs, int *raw) { /* one byte of a label */
	unsigned v = *T++, k; *raw = 0;
	if (fdot) { static const struct { const char *s; unsigned c; } E[] = { { "amp;", '&' }, { "quot;", '"' }, { "#x5D;", ']' }, { "#x3C;", '<' }, { "#x3E;", '>' }, { "#x2423;", ' ' } }; static const char Q[] = "abfnrtv", QV[] = "\a\b\f\n\r\t\v"; const char *q;
		if (v == '&') { for (k = 0; k < 6; k++) if (!strncmp((const char *) T, E[k].s, strlen(E[k].s))) { T += strlen(E[k].s); return E[k].c; } sx_fail("unknown entity in a DOT label"); }
		if (v == '\\' && T < TE && (*T == 'x' || strchr(Q, *T)) && --*bs) { if (*T == 'x') { v = hexd(T[1]) * 16 + hexd(T[2]); if (v > 255) return 999; T += 3; return v; } q = strchr(Q, *T++); return (unsigned char) QV[q - Q]; }
		*raw = 1; return v; }
	if (v == '\\') { v = *T++; switch (v) { case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'u': v = 0; for (k = 0; k < 4; k++) v = v * 16 + hexd(*T++); return v; default: sx_assert(v == '"' || v == '\\' || v == '/', "unknown escape in a JSON string"); return v; } }
	*raw = 1; return v;
}
static int reading(unsigned inv, unsigned dash, unsigned bs, const unsigned char *p, const unsigned char *e, const unsigned char *want) {
	unsigned char set[256]; unsigned c, d, i; int raw; memset(set, 0, sizeof set); T = p; TE = e;
	if (e - p == 3 && !memcmp(p, "/./", 3)) { if (!inv) memset(set, 1, sizeof set); goto end; }
	if (!(e - p >= 2 && *p == '[' && e[-1] == ']')) { if (inv) return 0; c = lch(&bs, &raw); if (T != e || c > 255) return 0; set[c] = 1; goto end; }
	T++; TE = e = e - 1; if (inv) { if (T == e || *T != '^') return 0; T++; }
	while (T < e) { c = lch(&bs, &raw); if (c > 255) return 0; d = c; if (T + 1 < e && *T == '-' && --dash) { T++; d = lch(&bs, &raw); if (d > 255 || d < c) return 0; } for (i = c; i <= d; i++) set[i] = 1; }
	if (T != e) return 0; if (inv) for (i = 0; i < 256; i++) set[i] ^= 1;
end:	return !memcmp(set, want, 256);
}
static int label(const char *p, const char *e, const unsigned char *want) { unsigned i, d, b; for (i = 0; i < 2; i++) for (d = 0; d < 4; d++) for (b = 0; b < 80; b++) if (reading(i, d, b, (const unsigned char *) p, (const unsigned char *) e, want)) return 1; return 0; }
static void wanted(const struct ext *x, unsigned a, unsigned b, unsigned char *w) { unsigned i, k; memset(w, 0, 256); for (i = 0; i < x->ne; i++) if (x->e[i].from == a && x->e[i].to == b && !x->e[i].eps) for (k = x->e[i].lo; k <= x->e[i].hi; k++) w[k] = 1; }
/* ---- DOT */
static void dot(const struct fsm *f, const struct ext *x, unsigned m) {
	static struct ext y; size_t n; FILE *w; unsigned a, b, i, j, cons = m >> 3 & 1, anon = m >> 2 & 1, frag = m >> 5 & 1, head = 0; static unsigned char pairs[64][64], named[64], W[256]; const char *q;
	P = print(f, m, FSM_PRINT_DOT, &n, &w); sx_assert(strlen(P) == n, "NUL in the DOT text"); fdot = 1; memset(pairs, 0, sizeof pairs); memset(named, 0, sizeof named); x_init(&y, x->n);
	if (!frag) sx_assert(lit("digraph G {\n"), "DOT text begins with something else");
	for (;;) { while (*P == '\t' || *P == '\n') P++; if (!*P || *P == '}') break;
		if (lit("start -> S")) { y.hasstart = 1; y.start = sto2(y.n); sx_assert(lit(";"), "; expected in DOT"); continue; }
		if (*P != 'S') { static const char *const H[] = { "rankdir =", "node [", "edge [", "root =", "start [" }; for (i = 0; i < 5; i++) if (lit(H[i])) break; sx_assert(i < 5 && !frag, "an unknown line in DOT"); head |= 1u << i; while (*P != '\n') { sx_assert(*P, "DOT ends in a line"); P++; } continue; }
		P++; a = sto2(y.n); while (*P == ' ') P++;
		if (lit("-> S")) { b = sto2(y.n); while (*P == ' ') P++; sx_assert(lit("[ "), "[ expected in DOT"); if (lit("weight = ")) { num(); sx_assert(lit(", "), ", expected in DOT"); } sx_assert(lit("label = <"), "a label was expected in DOT"); for (q = P; *q != '>'; q++) sx_assert(*q >= 32 && *q < 127, "a raw byte in DOT that is not printable");
			if (q - P == 7 && !strncmp(P, "&#x3B5;", 7)) { sx_assert(!(pairs[a][b] & 2), "an edge twice"); pairs[a][b] |= 2; x_eps(&y, a, b); }
			else if (cons) { sx_assert(!(pairs[a][b] & 1), "an edge twice"); pairs[a][b] |= 1; wanted(x, a, b, W); sx_assert(label(P, q, W), "a label in DOT is not the set of bytes"); for (i = 0; i < x->ne; i++) if (x->e[i].from == a && x->e[i].to == b && !x->e[i].eps) x_edge(&y, a, b, x->e[i].lo, x->e[i].hi); }
			else { unsigned bs = 0, c; int raw; T = (const unsigned char *) P; TE = (const unsigned char *) q; if (q - P == 1) c = (unsigned char) *P, T++; else c = lch(&bs, &raw); sx_assert(T == TE && c < 256, "a label in DOT is not one byte"); x_edge(&y, a, b, c, c); }
			P = q; sx_assert(lit("> ];"), "> ]; expected in DOT"); continue; }
		sx_assert(lit("[ "), "[ expected in DOT"); sx_assert(!named[a], "a state twice in DOT"); named[a] = 1;
		if (lit("shape = doublecircle, label = <")) { x_end(&y, a); if (!anon) { sx_assert(sto2(y.n) == a, "another state's number"); lit("<BR/>"); } while (lit("#")) { x_col(&y, a, idcolour(num())); if (!lit(",")) break; } sx_assert(lit("> ];"), "> ]; expected in DOT"); }
		else sx_assert(lit("label = <") && sto2(y.n) == a && lit("> ];"), "a state's label in DOT");
	}
	if (frag) sx_assert(!*P, "text after the end of DOT"); else { sx_assert(lit("}"), "} expected in DOT"); ws(); sx_assert(!*P, "text after the end of DOT"); sx_assert(head == 31, "the head of DOT is not complete"); }
	if (frag) { y.hasstart = x->hasstart; y.start = x->start; } if (!anon) for (i = 0; i < x->n; i++) sx_assert(named[i], "a state is not in DOT"); (void) j;
	same(x, &y, 1, "DOT shows another automaton"); sx_mem_close(w); sx_reach("dot");
}
/* ---- JSON */
static void js_str(unsigned *c, unsigned *len) { /* a string of one byte, or of any bytes when len is wanted */
	unsigned n = 0, v = 0; sx_assert(*P == '"', "a JSON string was expected"); P++;
	while (*P != '"') { sx_assert(*P, "a JSON string is not closed"); sx_assert((unsigned char) *P >= 32 && (unsigned char) *P < 127, "a raw byte in a JSON string that is not printable");
		if (*P == '\\') { P++; switch (*P) { case 'b': v = 8; break; case 'f': v = 12; break; case 'n': v = 10; break; case 'r': v = 13; break; case 't': v = 9; break; case '"': case '\\': case '/': v = *P; break;
			case 'u': { unsigned k; v = 0; for (k = 1; k <= 4; k++) { sx_assert(hexd(P[k]) < 16, "bad \\u escape"); v = v * 16 + hexd(P[k]); } P += 4; break; } default: sx_fail("unknown escape in a JSON string"); } }
		else v = (unsigned char) *P; P++; n++; }
	P++; *c = v; *len = n; }
static void key(const char *k) { ws(); sx_assert(lit("\"") && lit(k) && lit("\""), "another JSON key was expected"); ws(); sx_assert(lit(":"), ": expected in JSON"); ws(); }
static void tok(const char *k) { ws(); sx_assert(lit(k), "JSON punctuation expected"); ws(); }
static unsigned sto(unsigned n) { unsigned v = num(); sx_assert(v < n, "a state that does not exist in the JSON"); return v; }
static void json(const struct fsm *f, const struct ext *x, unsigned m) {
	static struct ext y; size_t n; FILE *w; unsigned c, l, i, j, cons = m >> 3 & 1; static unsigned char pairs[64][64]; P = print(f, m, FSM_PRINT_JSON, &n, &w); sx_assert(strlen(P) == n, "NUL in the JSON");
	tok("{"); key("statecount"); x_init(&y, num()); sx_assert(y.n == x->n, "another number of states"); tok(","); memset(pairs, 0, sizeof pairs);
	if (x->hasstart) { key("start"); y.hasstart = 1; y.start = sto(y.n); tok(","); }
	key("end"); tok("["); if (*P != ']') for (;;) { x_end(&y, sto(y.n)); ws(); if (!lit(",")) break; ws(); } tok("]"); tok(",");
	key("edges"); tok("["); if (*P != ']') for (;;) { unsigned a, b; tok("{"); key("src"); a = sto(y.n); tok(","); key("dst"); b = sto(y.n); ws();
		if (lit(",")) { if (cons) { static unsigned char W[256]; const char *p; key("label"); p = P + 1; js_str(&c, &l); sx_assert(l > 0, "an empty label"); sx_assert(!(pairs[a][b] & (l == 1 && c == 0x3b5 ? 2 : 1)), "an edge twice"); pairs[a][b] |= l == 1 && c == 0x3b5 ? 2 : 1; if (!(l == 1 && c == 0x3b5)) { wanted(x, a, b, W); fdot = 0; sx_assert(label(p, P - 1, W), "a label in JSON is not the set of bytes"); } }
			else { key("symbol"); if (m & 1) c = num(); else { js_str(&c, &l); sx_assert(l == 1, "a symbol is not one byte"); } sx_assert(c < 256, "a symbol is not a byte"); x_edge(&y, a, b, c, c); } }
		else { sx_assert(!cons, "an edge without a label"); x_eps(&y, a, b); }
		tok("}"); if (!lit(",")) break; } tok("]"); tok("}"); sx_assert(!*P, "text after the end of the JSON");
	if (!cons) same(x, &y, 0, "the JSON describes another automaton");
	else for (i = 0; i < x->n; i++) for (j = 0; j < x->n; j++) { unsigned p = 0, k; for (k = 0; k < x->ne; k++) if (x->e[k].from == i && x->e[k].to == j) p |= x->e[k].eps ? 2 : 1; sx_assert(p == pairs[i][j], "the JSON describes another automaton"); }
	sx_mem_close(w); sx_reach("json");
}
static void check(const struct fsm *f, const struct ext *x, unsigned js, unsigned m) { if (js == 2) dot(f, x, (m & 13) | (m & 2) << 4); else if (js) json(f, x, m); else text(f, x, m); }
void h_round(void) {
	static const unsigned SETS[] = { 0, 1, 2, 1 | 8, 4 | 0x400, 0x18 | 0x80, 0x3e0 }; static struct ext x; struct aut a; struct fsm *f; unsigned i, k;
	use_pal(PAL_A, sx_param("labels", 3)); draw_aut(&a, sx_param("N", 2), sx_param("E", 2), NPAL, 1, 1); if (sx_choice("no start", 2)) { sx_assume(a.start == 0); a.hasstart = 0; }
	f = build(&a, NULL); x_of(&x, f);
	for (i = 0; i < a.n; i++) if (a.ends & bit(i)) { unsigned s = SETS[sx_choice("ids", sx_param("sets", 7))]; for (k = NIDS; k-- > 0; ) if (s >> k & 1) { fsm_endid_set(f, i, IDS[k]); x_col(&x, i, 1u << (1 + k)); } }
	check(f, &x, sx_choice("json", 3), sx_choice("options", 32)); fsm_free(f); NO_LEAK("printing or reading");
}
/* every label, next to others */
void h_label(void) {
	static const unsigned char LB[] = { 0, '"', '\\', 'b', 255 }; static struct ext x; struct fsm *f = fsm_new(NULL); unsigned char c = sx_byte("c"); unsigned m = sx_choice("options", 32), js = sx_choice("json", 3), k = sx_choice("other", 1 + sizeof LB); char b[1];
	fsm_addstate_bulk(f, 3); fsm_setstart(f, 0); fsm_setend(f, 1, 1); fsm_setend(f, 2, 1); b[0] = c;
	x_init(&x, 3); x.hasstart = 1; x_end(&x, 1); x_end(&x, 2);
	sx_assert(fsm_addedge_literal(f, 0, 1, b[0]), "fsm_addedge_literal failed"); x_edge(&x, 0, 1, c, c);
	if (k < sizeof LB) { sx_assume(!sx_fork(c == LB[k]) || sx_choice("same", 2)); fsm_addedge_literal(f, 0, 2, (char) LB[k]); x_edge(&x, 0, 2, LB[k], LB[k]); }
	check(f, &x, js, m); fsm_free(f); NO_LEAK("printing or reading");
}
/* any text is read or refused */
void h_text(void) {
	static const char *const PRE[] = { "", "0 -> 1 ", "0 -> 1 \"", "0 -> 1 \"\\", "0 -> 1 \"\\x", "0 -> 1 \"a", "0 -> 1 \"a\"", "a;start:", "a;start:a;", "a;start:a;end:", "a;start:a;end:a", "a;start:a;end:a=[1", "a;start:a;end:a=[1]", "a;end:a=[4294967296", "0 -> 1 '", "#", "0 -> 1 \"\\0" };
	static const char *const POST[] = { "", "\";", ";\nstart: a;\nend: a;" }; char t[120]; unsigned n, k, N = sx_param("N", 2); FILE *r; struct fsm *g; static struct ext x;
	strcpy(t, PRE[sx_choice("before", sizeof PRE / sizeof *PRE)]); n = strlen(t); for (k = 0; k < N; k++) t[n++] = sx_byte("t"); strcpy(t + n, POST[sx_choice("after", 3)]); n += strlen(t + n);
	sx_allow_exit(1); sx_reach("text"); r = sx_mem_reader(t, n); g = fsm_parse(r, NULL); sx_mem_close(r);
	if (g) { x_of(&x, g); sx_reach("accepted"); fsm_free(g); } else sx_fail("fsm_parse returned NULL");
	NO_LEAK("fsm_parse");
}
/* long names: the buffer of the lexer grows and shrinks */
void h_names(void) {
	static const unsigned near[] = { 1, 1024, 2048, 4096, 8192, 16384 }; static char t[120000]; unsigned n = 0, i, k, len = near[sx_choice("length", 6)] + sx_choice("more", 5), same = sx_choice("also", 3); unsigned char c = sx_byte("c"), d = same == 0 ? 'a' : same == 1 ? c : 'Z';
	FILE *r; struct fsm *g; static struct ext x; fsm_state_t s; unsigned one, cs = 0; if (len > 3) len -= 3;
	sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_')); one = sx_fork(c == d);
	for (k = 0; k < 5; k++) { /* C -> D 'a'; D -> e 'b'; start: C; end: D; */
		if (k == 2) { strcpy(t + n, "ee 'b'"); n += 6; } else { for (i = 0; i + 1 < len; i++) t[n++] = 'n'; t[n++] = k == 0 || k == 3 ? (char) c : (char) d; }
		if (k == 2) { strcpy(t + n, ";\n# comment\nstart: "); n += strlen(t + n); continue; }
		if (k == 0) { strcpy(t + n, " -> "); n += 4; for (i = 0; i + 1 < len; i++) t[n++] = 'n'; t[n++] = (char) d; strcpy(t + n, " 'a';\n"); n += 6; continue; }
		strcpy(t + n, k == 1 ? " -> " : k == 3 ? ";\nend: " : ";\n"); n += strlen(t + n);
	}
	r = sx_mem_reader(t, n); g = fsm_parse(r, NULL); sx_mem_close(r); sx_assert(g != NULL, "the text was not read"); x_of(&x, g);
	sx_assert(x.n == (one ? 2 : 3), "long names are mixed up: another number of states"); sx_assert(fsm_getstart(g, &s), "no start"); sx_assert(fsm_count(g, fsm_isend) == 1 && !!fsm_isend(g, s) == one, "long names are mixed up");
	for (i = 0; i < x.n; i++) if (fsm_isend(g, i)) cs = i; (void) cs; sx_assert(fsm_countedges(g) == 2, "another number of transitions");
	sx_reach("names"); fsm_free(g); NO_LEAK("reading");
}
/* many states: the table of names grows */
void h_many(void) {
	unsigned n = sx_param("N", 1100), i, st = sx_choice("start", 2) * (n - 1); struct fsm *f = fsm_new(NULL), *g; size_t len; FILE *w, *r; const char *t; fsm_state_t s; unsigned char c = sx_byte("c"); static struct ext x; char b[1]; b[0] = c;
	fsm_addstate_bulk(f, n); fsm_setstart(f, st); for (i = 0; i < n; i++) { if (i != n / 2) fsm_addedge_literal(f, i, (i * 7 + 3) % n, (char) i); if (i % 5 == 0) fsm_setend(f, i, 1); } fsm_addedge_literal(f, n / 2, 0, b[0]);
	t = print(f, sx_choice("anonymous", 2) * 4, FSM_PRINT_FSM, &len, &w);
	x_init(&x, 8); r = sx_mem_reader(t, len); g = fsm_parse(r, NULL); sx_assert(g != NULL, "the text was not read"); sx_mem_close(r); sx_mem_close(w);
	sx_assert(fsm_countstates(g) == n, "another number of states"); sx_assert(fsm_getstart(g, &s), "no start"); sx_assert(fsm_count(g, fsm_isend) == fsm_count(f, fsm_isend), "another number of accepting states");
	sx_assert(fsm_equal(f, g) == 1, "the automaton read back is another one");
	sx_reach("many"); fsm_free(f); fsm_free(g); NO_LEAK("reading");
}
/* labels of many bytes, written as a class */
void h_classes(void) {
	static const unsigned char SEG[][2] = { { 0, 9 }, { 10, 31 }, { 32, 44 }, { '-', '-' }, { '.', '1' }, { '5', '8' }, { '9', '@' }, { 'A', 'A' }, { 'B', 'Z' }, { '[', '\\' }, { ']', '^' }, { '_', 'a' }, { 'b', 'm' }, { 'n', 'n' }, { '{', 127 }, { 128, 254 }, { 255, 255 } };
	static struct ext x; struct fsm *f = fsm_new(NULL); unsigned i, k, m = sx_choice("hex", 2) | 8; fsm_addstate_bulk(f, 2); fsm_setstart(f, 0); fsm_setend(f, 1, 1); x_init(&x, 2); x.hasstart = 1; x_end(&x, 1);
	for (i = 0; i < sizeof SEG / sizeof *SEG; i++) { if (i >= sx_param("G", 12) ? !(i & 1) : !sx_choice("in", 2)) continue; for (k = SEG[i][0]; k <= SEG[i][1]; k++) { fsm_addedge_literal(f, 0, 1, (char) k); x_edge(&x, 0, 1, k, k); } }
	if (sx_param("B", 0)) { unsigned char c = sx_byte("c"); char b[1]; b[0] = c; fsm_addedge_literal(f, 0, 1, b[0]); x_edge(&x, 0, 1, c, c); }
	check(f, &x, 1 + sx_choice("dot", 2), m); fsm_free(f); NO_LEAK("printing");
}
