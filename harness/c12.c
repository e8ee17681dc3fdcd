#include "h.h"
#include "corpus.h"
/* Generated code, compiled from the text the library prints now, on unconstrained input. */
extern void (*const gen_fn[])(void); extern const char *const gen_msg[]; extern const unsigned gen_kind, gen_langs, gen_first, gen_count;
static struct gdfa g; static struct { uint16_t first, n; } st[GMAXN];
struct rd { const unsigned char *p; unsigned n, i, eof; };
static int rd_getc(void *o) { struct rd *r = o; sx_assert(!r->eof, "the generated code reads again after the end of input"); if (r->i < r->n) return r->p[r->i++]; r->eof = 1; return EOF; }
typedef int (*f0)(const char *); typedef int (*f1)(const char *, unsigned *); typedef int (*f2)(const char *, const unsigned **, size_t *);
typedef int (*p0)(const char *, const char *); typedef int (*p1)(const char *, const char *, unsigned *); typedef int (*p2)(const char *, const char *, const unsigned **, size_t *);
typedef int (*g0)(int (*)(void *), void *); typedef int (*g1)(int (*)(void *), void *, unsigned *); typedef int (*g2)(int (*)(void *), void *, const unsigned **, size_t *);
static void run_item(unsigned i) {
	struct item t; unsigned n, k, e, id = 0x5a5a5a5a; const unsigned *ids = NULL; size_t count = 99; unsigned char *w, *buf; int r = -7; unsigned q; struct rd rd; void (*fn)(void) = gen_fn[i - gen_first];
	unsigned ok = 1; int multi; uint32_t s, acc = 0;
	if (!fn) sx_fail(gen_msg[i - gen_first]);
	g_item(gen_kind, gen_langs, i, &t, &g); multi = t.ambig == A_MULTIPLE || (t.lang == L_VMOPS && t.ambig != A_NONE);
	/* the input: unconstrained bytes, or a literal with one byte unconstrained, cut short or extended */
	if (g.lit) { unsigned at = sx_choice("at", 8), len = sx_choice("len", 4); n = len == 0 ? g.litlen : len == 1 ? g.litlen + 1 : len == 2 ? g.litlen - 1 : g.litlen / 2; at = at < 4 ? at : at * g.litlen / 7; buf = sx_raw_alloc(n + (t.io == I_STR)); for (k = 0; k < n; k++) buf[k] = k < g.litlen ? g.lit[k] : 'x'; if (at < n) buf[at] = sx_byte("w"); }
	else { n = sx_choice("length", g.wordlen + 1); if (sx_param("L", 0) && gen_kind == 0) n = sx_choice("length", sx_param("L", 0) + 1); buf = sx_raw_alloc(n + (t.io == I_STR)); sx_word(buf, n); }
	w = buf; if (t.io == I_STR) buf[n] = 0;
	rd.p = w; rd.n = n; rd.i = rd.eof = 0;
#define B ((const char *) w)
	if (t.io == I_GETC) r = t.ambig == A_NONE ? ((g0) fn)(rd_getc, &rd) : multi ? ((g2) fn)(rd_getc, &rd, &ids, &count) : ((g1) fn)(rd_getc, &rd, &id);
	if (t.io == I_STR) r = t.ambig == A_NONE ? ((f0) fn)(B) : multi ? ((f2) fn)(B, &ids, &count) : ((f1) fn)(B, &id);
	if (t.io == I_PAIR) r = t.ambig == A_NONE ? ((p0) fn)(B, B + n) : multi ? ((p2) fn)(B, B + n, &ids, &count) : ((p1) fn)(B, B + n, &id);
	/* the reference: state numbers plus one, 0 for none */
	for (k = 0; k < g.n; k++) st[k].n = 0;
	for (e = 0; e < g.ne; e++) { if (!st[g.e[e].from].n) st[g.e[e].from].first = e; st[g.e[e].from].n = e + 1 - st[g.e[e].from].first; }
	s = g.hasstart ? g.start + 1 : 0; q = 0;
	for (k = 0; k < n && s; k++) { /* branches: what the code under test has decided about the byte is known here */
		uint32_t d = 0; unsigned c = w[k];
		if (t.io == I_STR && c == 0) break;
		for (e = st[s - 1].first; e < st[s - 1].first + st[s - 1].n; e++) if (g.e[e].from == s - 1 && c >= g.e[e].lo && c <= g.e[e].hi) { d = g.e[e].to + 1; break; }
		s = d;
	}
	for (k = 0; k < g.n; k++) if (g.end[k]) acc |= s == k + 1;
	sx_assert(r == 0 || r == 1, "the generated code returns something else than 0 or 1");
	sx_assert((r == 1) == acc, "the generated code and the automaton disagree");
	if (r == 1 && t.ambig != A_NONE) for (k = 0; k < g.n; k++) if (g.end[k]) {
		unsigned bad = 0, j, min = g.ids[k][0]; uint32_t so[3]; unsigned a, b;
		for (a = 0; a < g.nids[k]; a++) so[a] = g.ids[k][a];
		for (a = 0; a < g.nids[k]; a++) for (b = a + 1; b < g.nids[k]; b++) if (so[b] < so[a]) { uint32_t x = so[a]; so[a] = so[b]; so[b] = x; }
		if (multi) { bad = count != g.nids[k]; for (j = 0; !bad && j < count; j++) bad |= ids[j] != so[j]; }
		else { min = so[0]; bad = id != min; }
		if (bad) sx_assert(s != k + 1, "the generated code reports wrong ids");
	}
	sx_reach("compared"); (void) q;
}
void h_gen(void) { unsigned i = 0; if (gen_count > 200) i = sx_choice("item/200", (gen_count + 199) / 200) * 200; { unsigned m = gen_count - i; i += sx_choice("item", m < 200 ? m : 200); } if (sx_param("only", -1) >= 0) i = sx_param("only", 0); run_item(gen_first + i); }
