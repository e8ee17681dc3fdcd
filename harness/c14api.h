/* Automata that are printed as calls to the library's API. */
#include <stdint.h>
#include <string.h>
struct api { unsigned n, start, frag, hex, comments; unsigned char end[4]; unsigned nids; uint32_t ids[3]; unsigned ne; struct { uint8_t from, to, eps, lo, hi; } e[64]; };
static void api_item(unsigned i, struct api *a) {
	static const uint8_t R[3][3][2] = { { { 0, 0 }, { 'a', 'f' }, { 200, 254 } }, { { 0, 255 }, { 1, 0 }, { 1, 0 } }, { { '\'', '\'' }, { '\\', '\\' }, { 255, 255 } } };
	unsigned m = i * 40503u + (i >> 4), f, t, l, k; memset(a, 0, sizeof *a);
	a->n = 2 + i % 2; a->start = i / 2 % a->n; a->frag = i / 4 & 1; a->hex = i / 8 & 1; a->comments = i / 16 & 1;
	for (f = 0; f < a->n; f++) for (t = 0; t < a->n; t++) for (l = 0; l < 4; l++) { m = m * 1103515245u + 12345u; if ((m >> 16 & 7) > 2) continue;
		if (l == 3) { if (f != t) { a->e[a->ne].from = f; a->e[a->ne].to = t; a->e[a->ne++].eps = 1; } }
		else for (k = 0; k < 3; k++) if (R[l][k][0] <= R[l][k][1] && a->ne < 60) { a->e[a->ne].from = f; a->e[a->ne].to = t; a->e[a->ne].lo = R[l][k][0]; a->e[a->ne++].hi = R[l][k][1]; } }
	k = 1 + (i / 3) % ((1u << a->n) - 1); for (f = 0; f < a->n; f++) a->end[f] = k >> f & 1;
	if ((k & (k - 1)) == 0) { a->nids = i % 4; a->ids[0] = 0; a->ids[1] = 7; a->ids[2] = 4294967294u; if (a->nids == 1) a->ids[0] = 12; }
}
