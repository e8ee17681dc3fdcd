#include "h.h"
#include <ctype.h>
#include <errno.h>
#include <fsm/cost.h>
#include <adt/path.h>
/* Generated matches, examples, shortest paths, required characters. */
struct path *fsm_shortest(const struct fsm *, fsm_state_t, fsm_state_t, unsigned (*)(fsm_state_t, fsm_state_t, char));
static struct ext ref, x;
static struct { unsigned char s[12]; unsigned n; } got[400]; static unsigned ngot, limit, mode, haltat, prunelen; static int opq;
static struct fsm *G; static unsigned lastc;
static enum fsm_generate_matches_cb_res on_match(const struct fsm *f, size_t depth, size_t mc, size_t steps, const char *in, size_t n, fsm_state_t end, void *o) {
	unsigned i; struct wbuf b; fsm_state_t e; (void) depth; (void) steps;
	sx_assert(f == G && o == &opq, "callback arguments"); sx_assert(mc == ngot, "number of matches so far"); sx_assert(n <= limit, "a string longer than the limit"); sx_assert(in[n] == 0, "the string is not terminated");
	sx_assert(ngot < 400, "harness: too many matches"); got[ngot].n = n; for (i = 0; i < n; i++) got[ngot].s[i] = in[i]; 
	sx_assert(x_word(&ref, got[ngot].s, n), "a generated string is not accepted");
	b.p = got[ngot].s; b.n = n; b.i = 0; sx_assert(fsm_exec(f, wgetc, &b, &e, NULL) == 1 && e == end, "wrong end state for a generated string");
	for (i = 0; i < ngot; i++) sx_assert(got[i].n != n || memcmp(got[i].s, got[ngot].s, n), "the same string was generated twice");
	if (mode == 2) for (i = 0; i < ngot; i++) sx_assert(n <= got[i].n || memcmp(got[i].s, in, got[i].n), "a string beyond a pruned match was generated");
	ngot++;
	if (mode == 1 && ngot == haltat) return FSM_GENERATE_MATCHES_CB_RES_HALT;
	if (mode == 2) return FSM_GENERATE_MATCHES_CB_RES_PRUNE;
	return FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}
/* how many different accepting paths (sequences of states) of up to L steps */
static unsigned npaths(const struct aut *a, unsigned s, unsigned L, int prune) {
	unsigned n = 0, t, i; 
	if (a->ends >> s & 1) { n = 1; if (prune) return 1; }
	if (L > 0) for (t = 0; t < a->n; t++) { for (i = 0; i < a->ne; i++) if (a->e[i].from == s && a->e[i].to == t) break; if (i < a->ne) n += npaths(a, t, L - 1, prune); }
	return n;
}
static void gen(const struct aut *a, int rnd) {
	unsigned all = npaths(a, a->start, limit, 0), pr = npaths(a, a->start, limit, 1); int r;
	mode = sx_choice("mode", 3); haltat = mode == 1 ? 1 + sx_choice("halt", 2) : 0; ngot = 0; opq = 0;
	r = fsm_generate_matches(G, limit, rnd, on_match, &opq);
	sx_assert(r == 1, "fsm_generate_matches failed");
	if (mode == 0) sx_assert(ngot == all, "not one string for each accepting path within the limit");
	if (mode == 1) sx_assert(ngot == (all < haltat ? all : haltat), "generation did not halt");
	if (mode == 2) sx_assert(ngot == pr, "not one string for each accepting path when matches are pruned");
}
void h_gen(void) {
	struct aut a; int rnd; unsigned i;
	use_pal(PAL_D, sx_param("labels", 2));
	draw_dfa(&a, 1 + sx_choice("n", sx_param("N", 3)), NPAL, sx_param("E", 99), 1); x_aut(&ref, &a); G = build(&a, NULL);
	limit = sx_param("L", 4); if (sx_param("anylen", 0)) limit = 1 + sx_choice("limit", limit); rnd = sx_param("random", 0); if (rnd) sx_symbolic_rand(1);
	gen(&a, rnd);
	for (i = 0; i < ngot; i++) ;
	sx_reach("checked"); fsm_free(G); NO_LEAK("fsm_generate_matches");
}
/* one unconstrained label, others fixed */
void h_gen_label(void) {
	static const struct pal one[1]; struct aut a; unsigned char l = sx_byte("label"); fsm_state_t s; unsigned i, loop = sx_choice("loop", 2); int r; (void) one;
	G = fsm_new(NULL); x_init(&ref, 4); for (i = 0; i < 4; i++) fsm_addstate(G, &s); fsm_setstart(G, 0); ref.hasstart = 1; x_end(&ref, 3); fsm_setend(G, 3, 1);
	fsm_addedge_literal(G, 0, 1, (char) l); x_edge(&ref, 0, 1, l, l); 
	if (sx_fork(l != 'b')) { fsm_addedge_literal(G, 0, 2, 'b'); x_edge(&ref, 0, 2, 'b', 'b'); }
	fsm_addedge_any(G, 1, 3); x_edge(&ref, 1, 3, 0, 255); fsm_addedge_literal(G, 2, 3, (char) 200); x_edge(&ref, 2, 3, 200, 200);
	if (loop) { fsm_addedge_literal(G, 3, 3, (char) l); x_edge(&ref, 3, 3, l, l); }
	limit = 4; mode = 0; ngot = 0; (void) a;
	if (sx_choice("random", 2)) { sx_symbolic_rand(1); r = fsm_generate_matches(G, limit, 1, on_match, &opq); } else r = fsm_generate_matches(G, limit, 0, on_match, &opq);
	sx_assert(r == 1, "fsm_generate_matches failed");
	sx_assert(ngot == (l == 'b' ? 1u : 2u) * (loop ? 3 : 1), "not one string for each accepting path within the limit");
	sx_reach("checked"); fsm_free(G); NO_LEAK("fsm_generate_matches");
}
/* deep automata: the buffer and the stack grow */
void h_gen_long(void) {
	unsigned n = sx_param("N", 70), i, extra = sx_choice("extra", 3); static unsigned char w[400]; int r; unsigned char l = sx_range("label", 'a', 'z');
	G = fsm_new(NULL); fsm_addstate_bulk(G, n + 1); fsm_setstart(G, 0); fsm_setend(G, n, 1); if (sx_choice("accept early", 2)) fsm_setend(G, 3, 1);
	for (i = 0; i < n; i++) { w[i] = i == 5 ? l : 'a' + i % 26; fsm_addedge_literal(G, i, i + 1, (char) w[i]); }
	if (extra == 1) fsm_addedge_literal(G, n, n, 'z'); if (extra == 2) fsm_addedge_literal(G, 2, 2, 'Z');
	/* generated strings are checked by execution */
	x_init(&ref, 1); ref.hasstart = 1; x_end(&ref, 0); x_edge(&ref, 0, 0, 0, 255); limit = n + sx_choice("over", 3) - 1; mode = 0; ngot = 0; 
	{ extern enum fsm_generate_matches_cb_res on_long(const struct fsm *, size_t, size_t, size_t, const char *, size_t, fsm_state_t, void *); lastc = 0; r = fsm_generate_matches(G, limit, 0, on_long, w); }
	sx_assert(r == 1, "fsm_generate_matches failed");
	sx_assert((lastc & 1) == (limit >= n), "the long match was not generated when it fits, or was when it does not");
	sx_reach("checked"); fsm_free(G); NO_LEAK("fsm_generate_matches");
}
enum fsm_generate_matches_cb_res on_long(const struct fsm *f, size_t depth, size_t mc, size_t steps, const char *in, size_t n, fsm_state_t end, void *o) {
	struct wbuf b; fsm_state_t e; b.p = (const unsigned char *) in; b.n = n; b.i = 0; (void) mc; (void) steps; (void) depth; (void) o;
	sx_assert(n <= limit, "a string longer than the limit"); sx_assert(fsm_exec(f, wgetc, &b, &e, NULL) == 1 && e == end, "a generated string is not accepted");
	if (end == fsm_countstates(f) - 1) lastc |= 1;
	return FSM_GENERATE_MATCHES_CB_RES_CONTINUE;
}
/* least-cost paths, the costs unconstrained */
static unsigned char W[8][8]; static unsigned wlab, cbase;
static unsigned cost(fsm_state_t from, fsm_state_t to, char c) { return cbase + W[from][to] + (c == 'a' ? wlab : 0); }
static const struct pal PAL_S[] = { { 2, { { 'a', 'a' }, { 'Z', 'Z' } } }, { 1, { { 0xee, 0xee } } }, { 2, { { 1, 1 }, { 'b', 'b' } } } };
static unsigned ecost(const struct aut *a, unsigned e, unsigned (*c)(fsm_state_t, fsm_state_t, char)) { unsigned i, k, m = -1u; for (i = 0; i < PAL[a->e[e].lab].n; i++) for (k = PAL[a->e[e].lab].r[i].lo; k <= PAL[a->e[e].lab].r[i].hi; k++) { unsigned v = c(a->e[e].from, a->e[e].to, (char) k); m = v < m ? v : m; } return m; }
static unsigned mincost(const struct aut *a, unsigned goal, unsigned (*c)(fsm_state_t, fsm_state_t, char), unsigned *d) {
	unsigned i, k; for (i = 0; i < a->n; i++) d[i] = i == a->start ? 0 : 0x40000000u;
	for (k = 0; k < a->n; k++) for (i = 0; i < a->ne; i++) { unsigned v = d[a->e[i].from] + ecost(a, i, c); d[a->e[i].to] = v < d[a->e[i].to] ? v : d[a->e[i].to]; }
	return d[goal];
}
void h_shortest(void) {
	struct aut a; struct fsm *f; unsigned i, j, goal, d[8], total = 0, n = sx_param("N", 3); struct path *p, *q; unsigned prev; xm r;
	use_pal(PAL_S, sx_param("labels", 2));
	draw_aut(&a, n, sx_param("E", 3), NPAL, 0, 1); a.ends = 0; x_aut(&ref, &a); f = build(&a, NULL); goal = sx_choice("goal", n); r = x_reach(&ref, xbit(a.start));
	for (i = 0; i < a.ne; i++) W[a.e[i].from][a.e[i].to] = 0;
	for (i = 0; i < a.ne; i++) { for (j = 0; j < i; j++) if (a.e[j].from == a.e[i].from && a.e[j].to == a.e[i].to) break; if (j == i) W[a.e[i].from][a.e[i].to] = sx_byte("cost"); }
	wlab = sx_choice("wlab", 2) * 300; cbase = sx_choice("base", 2) ? 1000 : 0;
	p = fsm_shortest(f, a.start, goal, cost); sx_assert(p != NULL, "fsm_shortest failed");
	if (!(r >> goal & 1)) { for (q = p; q; q = q->next) sx_assert(q->state != goal, "a path to a state that cannot be reached"); }
	else {
		sx_assert(p->state == a.start, "the path does not begin at the start");
		prev = a.start;
		for (q = p->next; q; q = q->next) {
			for (i = 0; i < a.ne; i++) if (a.e[i].from == prev && a.e[i].to == q->state && in_pal(a.e[i].lab, (unsigned char) q->c)) break;
			sx_assert(i < a.ne, "the path follows a transition that does not exist");
			total += cost(prev, q->state, q->c); prev = q->state;
		}
		sx_assert(prev == goal, "the path does not lead to the goal");
		sx_assert(total == mincost(&a, goal, cost, d), "the path is not of minimal cost"); sx_reach("path");
	}
	path_free(NULL, p); sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_shortest");
}
/* examples: an NFA, every goal, every buffer size */
void h_example(void) {
	struct aut a; struct fsm *f; unsigned goal, d[8], n = sx_param("N", 3), len = 0, i, s, k, tot = 0; char b[64], c[64]; int r, r2; xm re, cur; unsigned sz;
	use_pal(PAL_S, sx_param("labels", 3));
	draw_aut(&a, n, sx_param("E", 2), NPAL, 0, 1); a.ends = 0; x_aut(&ref, &a); f = build(&a, NULL); goal = sx_choice("goal", n); re = x_reach(&ref, xbit(a.start));
	memset(b, 'x', sizeof b); memset(c, 'x', sizeof c);
	r = fsm_example(f, goal, b, sizeof b); sx_assert(r >= 0, "fsm_example failed");
	sx_assert((size_t) r == strlen(b), "the length is not that of the example");
	sz = sx_choice("size", 12); r2 = fsm_example(f, goal, c, sz); sx_assert(r2 == r, "the length depends on the buffer");
	for (i = sz; i < sizeof c; i++) sx_assert(c[i] == 'x', "wrote beyond the buffer"); if (sz > 0) { for (i = 0; i < sz && c[i]; i++) ; sx_assert(i < sz, "the example is not terminated"); if ((unsigned) r < sz) sx_assert(!strcmp(b, c), "a buffer that is large enough gives another example"); }
	if (!(re >> goal & 1)) { sx_assert(r == 0, "an example for a state that cannot be reached"); }
	else {
		cur = xbit(a.start);
		for (i = 0; b[i]; len++) {
			unsigned v = (unsigned char) b[i]; if (v == '\\') { sx_assert(b[i + 1] == 'x' && isxdigit((unsigned char) b[i + 2]) && isxdigit((unsigned char) b[i + 3]), "an escape is malformed"); for (v = 0, k = 2; k < 4; k++) v = v * 16 + (isdigit((unsigned char) b[i + k]) ? b[i + k] - '0' : b[i + k] - 'a' + 10); i += 4; sx_assert(!isprint(v), "a printable character was escaped"); } else { sx_assert(isprint(v), "a character that is not printable was not escaped"); i++; }
			cur = x_step(&ref, cur, v); tot += fsm_cost_legible(0, 0, (char) v);
		}
		sx_assert(cur >> goal & 1, "the example does not lead to the goal"); sx_assert(tot == mincost(&a, goal, fsm_cost_legible, d), "the example is not the most legible one"); (void) s;
	}
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_example");
}
void h_example_label(void) {
	struct fsm *f = fsm_new(NULL); unsigned char l = sx_byte("label"); static const unsigned char LB[] = { 'a', 'z', 0, 255, 'A', '~', ' ' }; unsigned char m = LB[sx_choice("other", 7)], best; char b[32]; int r; unsigned ns = sx_choice("order", 2);
	fsm_addstate_bulk(f, 2); fsm_setstart(f, 0); fsm_addedge_literal(f, 0, 1, (char) (ns ? l : m)); fsm_addedge_literal(f, 0, 1, (char) (ns ? m : l));
	r = fsm_example(f, 1, b, sizeof b); 
	best = sx_fork(fsm_cost_legible(0, 0, (char) l) <= fsm_cost_legible(0, 0, (char) m)) ? l : m;
	if (sx_fork(isprint(best))) sx_assert(r == 1 && (unsigned char) b[0] == best && b[1] == 0, "the example is not the most legible one");
	else sx_assert(r == 4 && b[0] == '\\' && b[1] == 'x' && b[2] == "0123456789abcdef"[best >> 4] && b[3] == "0123456789abcdef"[best & 15] && b[4] == 0, "the example is not the most legible one");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_example");
}
/* required characters */
static const struct pal PAL_R[] = { { 1, { { 'a', 'a' } } }, { 1, { { 200, 200 } } }, { 2, { { 0, 0 }, { 64, 64 } } } };
static unsigned required(const struct aut *a, unsigned c) { /* c occurs in every accepted string */
	mask_t r = bit(a->start); unsigned i, k, j;
	for (k = 0; k < a->n; k++) for (i = 0; i < a->ne; i++) { unsigned other = 0; for (j = 0; j < PAL[a->e[i].lab].n; j++) other |= PAL[a->e[i].lab].r[j].lo != c; if (other && (r >> a->e[i].from & 1)) r |= bit(a->e[i].to); }
	return !(r & a->ends);
}
void h_required(void) {
	struct aut a; struct fsm *f; uint64_t m[4] = { 1, 2, 3, 4 }; size_t n = 77, want = 0, lim; unsigned c, ok = 1, none; enum fsm_detect_required_characters_res r; unsigned L = sx_param("limit", 0);
	use_pal(PAL_R, sx_param("labels", 3));
	draw_dfa(&a, sx_param("N", 3), NPAL, sx_param("E", 99), 1); x_aut(&ref, &a); f = build(&a, NULL);
	lim = L ? sx_choice("limit", L) : 0;
	r = fsm_detect_required_characters(f, lim, m, &n);
	none = !(x_reach(&ref, xbit(a.start)) & a.ends);
	if (lim && r == FSM_DETECT_REQUIRED_CHARACTERS_STEP_LIMIT_REACHED) { sx_assert(!(m[0] | m[1] | m[2] | m[3]), "partial results when the step limit is reached"); sx_reach("limit"); }
	else {
		sx_assert(r == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "fsm_detect_required_characters failed");
		if (!none) { for (c = 0; c < 256; c++) { unsigned q = required(&a, c); want += q; ok &= (m[c / 64] >> c % 64 & 1) == q; }
			sx_assert(ok, "the required characters are not those in every accepted string"); sx_assert(n == want, "the count is not that of the characters"); }
	}
	r = fsm_detect_required_characters(f, 0, m, NULL); sx_assert(r == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "a second call failed");
	if (!none) { for (ok = 1, c = 0; c < 256; c++) ok &= (m[c / 64] >> c % 64 & 1) == required(&a, c); sx_assert(ok, "a second call gives another answer"); }
	x_of(&x, f); sx_assert(x_eq(&ref, &x), "fsm_detect_required_characters changed the automaton");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_detect_required_characters");
}
void h_required_label(void) { /* l m? l on one path, p l on the other, over a long chain */
	struct fsm *f = fsm_new(NULL); unsigned char l = sx_byte("l"); static const unsigned char LB[] = { 'a', 0, 255, 63, 64 }; unsigned char m = LB[sx_choice("m", 5)]; uint64_t b[4]; size_t n; unsigned i, len = sx_choice("len", 3) * 20 + 1, shape = sx_choice("shape", 3), c, ok = 1; 
	fsm_addstate_bulk(f, len + 4); fsm_setstart(f, 0); fsm_setend(f, len + 2, 1);
	for (i = 0; i < len; i++) fsm_addedge_literal(f, i, i + 1, (char) l);
	fsm_addedge_literal(f, len, len + 1, (char) m); if (shape == 1) fsm_addedge_literal(f, len, len + 1, 'q'); fsm_addedge_literal(f, len + 1, len + 2, 'r');
	if (shape == 2) { fsm_addedge_literal(f, len + 1, len + 3, 's'); fsm_addedge_literal(f, len + 3, len + 2, (char) l); }
	sx_assert(fsm_detect_required_characters(f, 0, b, &n) == FSM_DETECT_REQUIRED_CHARACTERS_WRITTEN, "fsm_detect_required_characters failed");
	for (c = 0; c < 256; c++) { unsigned want = (c == l) | (c == m && shape != 1) | (c == 'r' && shape != 2); ok &= (b[c / 64] >> c % 64 & 1) == want; }
	sx_assert(ok, "the required characters are not those in every accepted string");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_detect_required_characters");
}
