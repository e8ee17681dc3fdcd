/* The automata that are printed as code: described once, used by the generator (which builds them through the
 * library's API, prints them and leaves the text to the compiler) and by the harness (which runs the compiled text on
 * unconstrained input next to this description). */
#ifndef CORPUS_H
#define CORPUS_H
#include <stdint.h>
#include <string.h>
enum { L_C, L_VMC, L_VMOPS, L_LLVM };
enum { I_GETC, I_STR, I_PAIR };
enum { A_NONE, A_ERROR, A_EARLIEST, A_MULTIPLE };
enum { F_RANGES = 1, F_HEX = 2, F_COMMENTS = 4, F_FRAG = 8, F_GROUP = 16 };
#define GMAXN 9000
struct gdfa { unsigned n, start, ne; int hasstart; unsigned wordlen, litlen; const unsigned char *lit; unsigned char end[GMAXN], nids[GMAXN]; uint32_t ids[GMAXN][3]; struct { uint16_t from, to; uint8_t lo, hi; } e[GMAXN]; };
struct item { unsigned lang, io, ambig, flags; };
struct grng { unsigned n; struct { uint8_t lo, hi; } r[3]; };
static const struct grng GV[3] = { { 2, { { 0, 0 }, { 'a', 'f' } } }, { 1, { { 1, 'a' - 1 } } }, { 1, { { 'g', 255 } } } };
static const struct grng GW[3] = { { 3, { { 0, 0 }, { 64, 100 }, { 254, 254 } } }, { 3, { { 1, 9 }, { 20, 63 }, { 128, 128 } } }, { 2, { { 101, 127 }, { 129, 253 } } } };
static void g_edge(struct gdfa *g, unsigned f, unsigned t, unsigned lo, unsigned hi) { g->e[g->ne].from = f; g->e[g->ne].to = t; g->e[g->ne].lo = lo; g->e[g->ne].hi = hi; g->ne++; }
static void g_end(struct gdfa *g, unsigned s, unsigned n, uint32_t a, uint32_t b, uint32_t c) { g->end[s] = 1; g->nids[s] = n; g->ids[s][0] = a; g->ids[s][1] = b; g->ids[s][2] = c; }
/* every valid combination of language, way of reading, way of reporting ids and options */
static unsigned g_ncombo(unsigned langs) { return (langs & 1 ? 192 : 0) + (langs & 2 ? 96 : 0) + (langs & 4 ? 32 : 0) + (langs & 8 ? 48 : 0); }
static void g_combo(unsigned k, unsigned langs, struct item *t) {
	memset(t, 0, sizeof *t);
	if (langs & 1) { if (k < 192) { t->lang = L_C; t->io = k % 3; k /= 3; t->ambig = k % 4; k /= 4; t->flags = k; return; } k -= 192; }
	if (langs & 2) { if (k < 96) { t->lang = L_VMC; t->io = k % 3; k /= 3; t->ambig = k % 4; k /= 4; t->flags = k << 1; return; } k -= 96; }
	if (langs & 4) { if (k < 32) { t->lang = L_VMOPS; t->io = 1 + k % 2; k /= 2; t->ambig = k % 4; k /= 4; t->flags = k << 1; return; } k -= 32; }
	t->lang = L_LLVM; t->io = k % 3; k /= 3; t->ambig = k % 4; k /= 4; t->flags = k << 1;
}
static const unsigned char LITS[][12] = { "a??/b*/c\"\\", "x\0yz", "\xff\xfe\x80q", "%s%d\n\r\t", "0\0011x\0177f", "'\\''x", "\x01\x32\x33zz", "abcdefghijk", "ab" };
static const unsigned char LITN[] = { 10, 4, 4, 7, 7, 5, 5, 11, 2 };
#define NLITS (sizeof LITN)
static unsigned char g_long[GMAXN];
/* kind: 0 small automata; 1 special ones */
static unsigned g_nspecial(void) { return 9 + NLITS; }
static void g_make(unsigned kind, unsigned i, int ambig, struct gdfa *g) {
	unsigned k, l, c, x; const struct grng *P;
	g->n = g->ne = g->start = 0; g->hasstart = 1; g->wordlen = 2; g->lit = NULL; g->litlen = 0; memset(g->end, 0, sizeof g->end); memset(g->nids, 0, sizeof g->nids);
	if (kind == 0) {
		unsigned t = i % 729, ends = 1 + (i / 729 + i) % 3; P = (i / 7) % 3 == 2 ? GW : GV;
		g->n = 2; g->start = (i / 11) % 2;
		for (k = 0; k < 2; k++) for (l = 0; l < 3; l++, t /= 3) if (t % 3) for (x = 0; x < P[l].n; x++) g_edge(g, k, t % 3 - 1, P[l].r[x].lo, P[l].r[x].hi);
		if (ends & 1) g_end(g, 0, 1 + (i & 1), 5, 4294967295u, 0);
		if (ends & 2) g_end(g, 1, 1 + (i >> 1 & 1), i % 5 ? 4 : 5, 7 + 256 * (i % 3), 0);
		if (ambig == A_ERROR) for (k = 0; k < 2; k++) if (g->nids[k] > 1) g->nids[k] = 1;
		if (ambig == A_NONE && i % 3 == 0) g->nids[0] = g->nids[1] = 0;
		return;
	}
	switch (i) {
	case 0: /* every byte leads into a run of its own: that byte again, then digits that must not join an escape */
		g->n = 2 + 3 * 256; g->wordlen = 4; g_end(g, 1, 1, 9, 0, 0);
		for (c = 0; c < 256; c++) { unsigned s = 2 + 3 * c; g_edge(g, 0, s, c, c); g_edge(g, s, s + 1, c, c); g_edge(g, s + 1, s + 2, '0', '0'); g_edge(g, s + 2, 1, 'f', 'f'); }
		return;
	case 1: /* 256 targets, each with ids of its own */
		g->n = 257; g->wordlen = 2; for (c = 0; c < 256; c++) { g_edge(g, 0, 1 + c, c, c); g_end(g, 1 + c, 1, (uint32_t) c << c / 64 * 8, 0, 0); } /* ids that differ in any one of their bytes */
		return;
	case 2: /* many combinations of ids */
		g->n = 41; g->wordlen = 1; for (c = 0; c < 40; c++) { g_edge(g, 0, 1 + c, 6 * c, 6 * c + 5); g_end(g, 1 + c, ambig == A_ERROR ? 1 : 1 + c % 3, 1 + c / 4, 100 + c % 5 * 256, 70000 + c % 2); }
		return;
	case 3: /* every byte but one, and only one */
		g->n = 3; g_edge(g, 0, 1, 0, 199); g_edge(g, 0, 1, 201, 255); g_edge(g, 1, 2, 127, 128); g_edge(g, 1, 1, 0, 126); g_edge(g, 2, 2, 255, 255); g_edge(g, 2, 0, 0, 0); g_end(g, 2, 1, 1, 0, 0);
		return;
	case 4: /* no states */ g->n = 0; g->hasstart = 0; return;
	case 5: /* nothing accepted */ g->n = 2; g_edge(g, 0, 1, 'a', 'c'); g_edge(g, 1, 1, 0, 255); return;
	case 6: /* everything accepted */ g->n = 1; g_edge(g, 0, 0, 0, 255); g_end(g, 0, 1, 0, 0, 0); return;
	case 7: /* only the empty string, with states that cannot be reached */ g->n = 3; g->start = 1; g_end(g, 1, 1, 8, 0, 0); g_edge(g, 0, 2, 'x', 'y'); g_edge(g, 2, 2, 0, 255); g_end(g, 2, 1, 3, 0, 0); return;
	case 8: /* a literal longer than any buffer of the printer */
		g->litlen = 8205; for (k = 0; k < g->litlen; k++) g_long[k] = 'a' + k % 23; g->lit = g_long; break;
	default: g->lit = LITS[i - 9]; g->litlen = LITN[i - 9]; break;
	}
	g->n = g->litlen + 1; for (k = 0; k < g->litlen; k++) g_edge(g, k, k + 1, g->lit[k], g->lit[k]);
	g_end(g, g->litlen, 1, 77, 0, 0);
}
/* item i of a corpus */
static void g_item(unsigned kind, unsigned langs, unsigned i, struct item *t, struct gdfa *g) {
	unsigned nc = g_ncombo(langs);
	if (kind == 0) { g_combo((i * 7 + i / nc) % nc, langs, t); g_make(0, i, t->ambig, g); }
	else { unsigned s = i % g_nspecial(), k = i / g_nspecial(); g_combo((k * 41 + s * 11) % nc, langs, t); g_make(1, s, t->ambig, g); if (s == 8) { t->flags &= ~F_COMMENTS; if (langs & 2) { t->lang = L_VMC; t->flags &= ~F_RANGES; if (t->io == I_GETC) t->io = I_PAIR; } else g_make(1, 9, t->ambig, g); } }
}
#endif
