/* Regular expressions drawn by the harness: a syntax tree with its meaning, built next to the text of the pattern.
 * The meaning is an automaton over (place in the expression, at the start of the text or not, what has been promised
 * about the rest of the text), searched for anywhere in the text unless the dialect or the flags anchor the pattern. */
#ifndef RX_H
#define RX_H
#include "h.h"
#include <re/re.h>
#include <errno.h>
enum { R_EMPTY, R_SET, R_CAT, R_ALT, R_REP, R_BOL, R_EOL, R_EOLNL };
#define RINF 1000000u
struct rnode { uint8_t k; uint16_t a, b, first, nr; unsigned m, n; };
static struct rnode rn[400]; static unsigned nrn; static struct { uint8_t lo, hi; } rr[600]; static unsigned nrr;
static unsigned r_new(unsigned k, unsigned a, unsigned b) { sx_assert(nrn < 400, "harness: too many nodes"); memset(&rn[nrn], 0, sizeof rn[0]); rn[nrn].k = k; rn[nrn].a = a; rn[nrn].b = b; rn[nrn].first = nrr; return nrn++; }
static unsigned r_rep(unsigned a, unsigned m, unsigned n) { unsigned i = r_new(R_REP, a, 0); rn[i].m = m; rn[i].n = n; return i; }
static void r_range(unsigned s, unsigned lo, unsigned hi) { sx_assert(nrr < 600 && rn[s].first + rn[s].nr == nrr, "harness: ranges"); rr[nrr].lo = lo; rr[nrr].hi = hi; nrr++; rn[s].nr++; }
static unsigned r_sym(unsigned l, int icase) { /* l may be symbolic */
	unsigned s = r_new(R_SET, 0, 0);
	if (!icase) { r_range(s, l, l); return s; }
	if (sx_fork((l >= 'a') & (l <= 'z'))) { r_range(s, l, l); r_range(s, l - 32, l - 32); }
	else if (sx_fork((l >= 'A') & (l <= 'Z'))) { r_range(s, l, l); r_range(s, l + 32, l + 32); }
	else r_range(s, l, l);
	return s;
}
static unsigned r_table(const uint8_t *t) { unsigned s = r_new(R_SET, 0, 0), i, j; for (i = 0; i < 256; i++) if (t[i]) { for (j = i; j < 255 && t[j + 1]; j++) ; r_range(s, i, j); i = j; } return s; }
static void r_fold(uint8_t *t) { unsigned i; for (i = 'a'; i <= 'z'; i++) t[i] = t[i - 32] = t[i] | t[i - 32]; }
static unsigned r_any(int nl) { unsigned s = r_new(R_SET, 0, 0); if (nl) r_range(s, 0, 255); else { r_range(s, 0, 9); r_range(s, 11, 255); } return s; }
/* base automaton */
static struct { uint16_t f, t; uint8_t k, lo, hi; } be[3000]; static unsigned nbe, nbs;
static void b_edge(unsigned f, unsigned t, unsigned k, unsigned lo, unsigned hi) { sx_assert(nbe < 3000, "harness: too many base edges"); be[nbe].f = f; be[nbe].t = t; be[nbe].k = k; be[nbe].lo = lo; be[nbe].hi = hi; nbe++; }
static unsigned b_state(void) { sx_assert(nbs < 700, "harness: too many base states"); return nbs++; }
static void b_build(unsigned e, unsigned f, unsigned t) {
	unsigned i, s, cur;
	switch (rn[e].k) {
	case R_EMPTY: b_edge(f, t, R_EMPTY, 0, 0); break;
	case R_SET: for (i = 0; i < rn[e].nr; i++) b_edge(f, t, R_SET, rr[rn[e].first + i].lo, rr[rn[e].first + i].hi); break;
	case R_CAT: s = b_state(); b_build(rn[e].a, f, s); b_build(rn[e].b, s, t); break;
	case R_ALT: b_build(rn[e].a, f, t); b_build(rn[e].b, f, t); break;
	case R_REP:
		cur = b_state(); b_edge(f, cur, R_EMPTY, 0, 0);
		for (i = 0; i < rn[e].m; i++) { s = b_state(); b_build(rn[e].a, cur, s); cur = s; }
		if (rn[e].n == RINF) { unsigned l = b_state(), l2 = b_state(); b_edge(cur, l, R_EMPTY, 0, 0); b_build(rn[e].a, l, l2); b_edge(l2, l, R_EMPTY, 0, 0); cur = l; }
		else for (; i < rn[e].n; i++) { b_edge(cur, t, R_EMPTY, 0, 0); s = b_state(); b_build(rn[e].a, cur, s); cur = s; }
		b_edge(cur, t, R_EMPTY, 0, 0); break;
	default: b_edge(f, t, rn[e].k, 0, 0);
	}
}
/* places: base state * 6 + (0: start of the text, 3: not) + promise (0: none, 1: the rest is "" or "\n", 2: the rest is "") */
static uint16_t p_idx[700 * 6]; static uint16_t p_key[64]; static uint8_t p_seen[700 * 6]; static uint16_t p_stk[700 * 6];
static unsigned p_get(struct ext *x, unsigned key) { if (!p_idx[key]) { sx_assert(x->n < 64, "harness: the expression has too many places"); p_key[x->n] = key; x->col[x->n] = 0; p_idx[key] = ++x->n; } return p_idx[key] - 1; }
static void r_ext(struct ext *x, unsigned e, int anchored) {
	unsigned q0, q1, i, j, sp, cl[700 * 6], ncl;
	nbe = nbs = 0; q0 = b_state(); q1 = b_state();
	if (anchored) b_build(e, q0, q1);
	else { unsigned a = b_state(), b = b_state(); b_edge(q0, q0, R_SET, 0, 255); b_edge(q0, a, R_EMPTY, 0, 0); b_build(e, a, b); b_edge(b, q1, R_EMPTY, 0, 0); b_edge(q1, q1, R_SET, 0, 255); }
	memset(p_idx, 0, 6 * nbs * sizeof p_idx[0]); x_init(x, 64); x->n = 0; x->hasstart = 1; x->start = p_get(x, q0 * 6);
	for (i = 0; i < x->n; i++) {
		memset(p_seen, 0, 6 * nbs); sp = 0; ncl = 0; p_stk[sp++] = p_key[i]; p_seen[p_key[i]] = 1;
		while (sp) {
			unsigned k = p_stk[--sp], q = k / 6, st = k % 6 / 3, pr = k % 3; cl[ncl++] = k;
			for (j = 0; j < nbe; j++) if (be[j].f == q && be[j].k != R_SET) {
				unsigned np = pr, nk;
				if (be[j].k == R_BOL && st) continue;
				if (be[j].k == R_EOL) np = 2;
				if (be[j].k == R_EOLNL && pr < 1) np = 1;
				nk = be[j].t * 6 + st * 3 + np; if (!p_seen[nk]) { p_seen[nk] = 1; p_stk[sp++] = nk; }
			}
		}
		for (j = 0; j < ncl; j++) {
			unsigned q = cl[j] / 6, pr = cl[j] % 3, m;
			if (q == q1) x_end(x, i);
			if (pr == 2) continue;
			for (m = 0; m < nbe; m++) if (be[m].f == q && be[m].k == R_SET) {
				if (pr == 0) x_edge(x, i, p_get(x, be[m].t * 6 + 3), be[m].lo, be[m].hi);
				else if (sx_fork((be[m].lo <= '\n') & ('\n' <= be[m].hi))) x_edge(x, i, p_get(x, be[m].t * 6 + 5), '\n', '\n');
			}
		}
	}
}
static void r_reverse(struct ext *y, const struct ext *x) {
	unsigned i; x_init(y, x->n + 1); y->hasstart = 1; y->start = x->n; sx_assert(x->n < 64, "harness: the expression has too many places");
	for (i = 0; i < x->n; i++) if (x->col[i]) x_eps(y, x->n, i);
	for (i = 0; i < x->ne; i++) { if (x->e[i].eps) x_eps(y, x->e[i].to, x->e[i].from); else x_edge(y, x->e[i].to, x->e[i].from, x->e[i].lo, x->e[i].hi); }
	x_end(y, x->start);
}
/* the text of the pattern, written along */
static unsigned char pt[600]; static unsigned npt;
static void p_put(const char *s) { while (*s) pt[npt++] = (unsigned char) *s++; }
static void p_ch(unsigned c) { pt[npt++] = c; }
/* the pattern being written: one level for each open group */
static struct { int alt, cat, last; unsigned flags; } lv[16]; static unsigned nlv;
enum { FI = 1, FS = 2, FX = 4 };
static unsigned cf, r_has; /* current flags; bit 0: the pattern has an anchor, 1: it has an alternative that is empty */
static void w_open(void) { sx_assert(nlv < 16, "harness: groups"); lv[nlv].alt = lv[nlv].cat = lv[nlv].last = -1; lv[nlv].flags = cf; nlv++; }
static void w_begin(unsigned flags) { nrn = nrr = npt = nlv = 0; cf = flags; r_has = 0; w_open(); }
static void w_flush(void) { if (lv[nlv - 1].last >= 0) { lv[nlv - 1].cat = lv[nlv - 1].cat < 0 ? lv[nlv - 1].last : (int) r_new(R_CAT, lv[nlv - 1].cat, lv[nlv - 1].last); lv[nlv - 1].last = -1; } }
static void w_item(unsigned e) { w_flush(); lv[nlv - 1].last = e; if (rn[e].k >= R_BOL) r_has |= 1; }
static void w_quant(unsigned m, unsigned n) { if (m == 1 && n == RINF) r_has |= 4; lv[nlv - 1].last = r_rep(lv[nlv - 1].last, m, n); }
static unsigned w_seq(void) { w_flush(); if (lv[nlv - 1].cat < 0) { r_has |= 2; return r_new(R_EMPTY, 0, 0); } return lv[nlv - 1].cat; }
static void w_alt(void) { unsigned s = w_seq(); lv[nlv - 1].alt = lv[nlv - 1].alt < 0 ? (int) s : (int) r_new(R_ALT, lv[nlv - 1].alt, s); lv[nlv - 1].cat = lv[nlv - 1].last = -1; }
static unsigned w_close(void) { w_alt(); nlv--; cf = lv[nlv].flags; return lv[nlv].alt; }
/* compiling */
static struct wbuf rb; static unsigned rflags; static struct re_err rerr;
static char p_text[2500];
static void p_show(void) { char *b = p_text; unsigned i, n = 0; for (i = 0; i < npt; i++) n += pt[i] > 32 && pt[i] < 127 ? sprintf(b + n, "%c", pt[i]) : sprintf(b + n, "<%02x>", pt[i]); sx_log("pattern: %s (flags %ld)\n", b, (long) rflags); }
static struct fsm *r_comp(enum re_dialect d, unsigned flags) { rflags = flags; if (!sx_param("symbolic", 0)) p_show(); rb.p = pt; rb.n = npt; rb.i = 0; memset(&rerr, 0, sizeof rerr); return re_comp(d, wgetc, &rb, NULL, (enum re_flags) flags, &rerr); }
static void x_of_re(struct ext *x, struct fsm *f) { if (fsm_countstates(f) > 64) sx_assert(fsm_determinise(f), "fsm_determinise failed"); x_of(x, f); }
/* development only (concrete automata): do the languages differ on some word? */
static int x_differ(const struct ext *a, const struct ext *b) {
	const struct ext *xs[2] = { a, b }; unsigned char rep[256]; unsigned nr = x_next(xs, 2, rep), nR = 1, i, j, l;
	x__r[0][0] = x_start(a); x__r[0][1] = x_start(b);
	for (i = 0; i < nR; i++) {
		if ((x_acc(a, x__r[i][0]) & 1) != (x_acc(b, x__r[i][1]) & 1)) return 1;
		for (l = 0; l < nr; l++) { xm p = x_cstep(a, x__r[i][0], rep[l]), q = x_cstep(b, x__r[i][1], rep[l]); for (j = 0; j < nR; j++) if (x__r[j][0] == p && x__r[j][1] == q) break; if (j == nR && nR < RMAX) { x__r[nR][0] = p; x__r[nR][1] = q; nR++; } }
	}
	return 0;
}
#endif
