#include "h.h"
#include <errno.h>
/* fsm_exec: what it accepts, where it ends, what it reads. */
struct rd { const unsigned char *p; unsigned n, i, calls, eof; };
static int rgetc(void *o) { struct rd *r = o; sx_assert(!r->eof, "read again after the end of the input"); r->calls++; if (r->i < r->n) return r->p[r->i++]; r->eof = 1; return EOF; }
static void one(const struct fsm *f, const struct aut *a, const unsigned char *w, unsigned L) {
	struct rd r; fsm_state_t end = 0xabcdef; int x; unsigned s = a->start, i, e, nx;
	r.p = w; r.n = L; r.i = r.calls = r.eof = 0;
	x = fsm_exec(f, rgetc, &r, &end, NULL);
	for (i = 0; i < L; i++) {
		for (nx = a->n, e = 0; e < a->ne; e++) if (a->e[e].from == s && in_pal(a->e[e].lab, w[i])) nx = a->e[e].to;
		if (nx == a->n) break;
		s = nx;
	}
	sx_assert(r.calls == i + 1, "read further than the first byte without a transition, or stopped too early");
	sx_assert((unsigned) (x == 1) == sim_word(a, w, L), "the verdict is not that of the automaton");
	if (i == L && (a->ends >> s & 1)) { sx_assert(x == 1, "an input on an accepting path was not accepted"); sx_assert(end == s, "wrong end state"); }
	else sx_assert(x == 0, "an input that is not on an accepting path was accepted");
}
void h_exec(void) {
	struct aut a; struct fsm *f; unsigned L = sx_choice("length", sx_param("L", 3) + 1), i; unsigned char w[8];
	use_pal(PAL_D, sx_param("labels", 2));
	draw_dfa(&a, sx_param("N", 2), NPAL, 99, 1); f = build(&a, NULL);
	for (i = 0; i < a.n; i++) { fsm_setend(f, i, !(a.ends >> i & 1)); fsm_setend(f, i, (a.ends >> i & 1) ? 4 : 0); }
	sx_word(w, L); one(f, &a, w, L);
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
/* labels that are unconstrained bytes, two outgoing edges */
void h_label(void) {
	struct fsm *f = fsm_new(NULL); static const unsigned char LB[] = { 0, 255, 63, 64, 128 }; unsigned char l0 = sx_byte("l0"), l1 = LB[sx_choice("l1", 5)], w[2]; struct rd r; fsm_state_t end = 99; int x, same; unsigned ends;
	fsm_addstate_bulk(f, 3); fsm_setstart(f, 0); sx_assert(fsm_addedge_literal(f, 0, 1, (char) l0), "fsm_addedge_literal failed"); sx_assert(fsm_addedge_literal(f, 0, 2, (char) l1), "fsm_addedge_literal failed"); fsm_setend(f, 1, 1); fsm_setend(f, 2, 1);
	sx_assert(fsm_addedge_any(f, 2, 1), "fsm_addedge_any failed");
	w[0] = sx_byte("w"); w[1] = sx_byte("w"); r.p = w; r.n = 1 + sx_choice("n", 2); r.i = r.calls = r.eof = 0;
	errno = 0; x = fsm_exec(f, rgetc, &r, &end, NULL);
	same = sx_fork(l0 == l1);
	if (same) { sx_assert(x == -1 && errno == EINVAL && r.calls == 0, "an automaton with two transitions for one byte was executed"); sx_reach("nfa"); }
	else {
		int to = sx_fork(w[0] == l0) ? 1 : sx_fork(w[0] == l1) ? 2 : 0, acc = r.n == 1 ? to != 0 : to == 2;
		sx_assert(x == acc, "wrong verdict"); if (acc) sx_assert(end == (r.n == 1 ? to : 1), "wrong end state");
		sx_assert(r.calls == (to == 0 ? 1 : r.n == 1 || to == 1 ? 2 : 3), "read further than the first byte without a transition, or stopped too early");
	}
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
/* a different target for each byte value */
void h_all_bytes(void) {
	struct fsm *f = fsm_new(NULL); unsigned i, ord = sx_choice("order", 3), miss = sx_choice("missing", 3) * 127 + 1; unsigned char w = sx_byte("w"); struct rd r; fsm_state_t end; int x;
	fsm_addstate_bulk(f, 257); fsm_setstart(f, 256);
	for (i = 0; i < 256; i++) { unsigned c = ord == 0 ? i : ord == 1 ? 255 - i : i * 77 & 255; if (c != miss) fsm_addedge_literal(f, 256, 255 - c, (char) c); fsm_setend(f, i, 1); }
	r.p = &w; r.n = 1; r.i = r.calls = r.eof = 0;
	x = fsm_exec(f, rgetc, &r, &end, NULL);
	sx_assert(x == (w != miss), "wrong verdict"); if (x) sx_assert(end == 255u - w, "the transition of another byte was followed");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
/* anything that is not a DFA, or has no start, is refused */
void h_refuse(void) {
	struct aut a; struct fsm *f; unsigned i, j, dfa = 1, none; struct rd r; unsigned char w[3]; fsm_state_t end; int x; unsigned L = sx_param("L", 1);
	use_pal(PAL_A, sx_param("labels", 3));
	draw_aut(&a, sx_param("N", 2), sx_param("E", 3), NPAL, 1, 1); none = sx_choice("no start", 2); if (none) a.hasstart = 0;
	f = build(&a, NULL); if (sx_choice("cleared", 2)) { fsm_setstart(f, 0); if (none) fsm_clearstart(f); else fsm_setstart(f, a.start); }
	for (i = 0; i < a.ne; i++) { if (a.e[i].lab == EPS && eps_ok(a.e[i].from, a.e[i].to)) dfa = 0;
		for (j = 0; j < i; j++) if (a.e[i].from == a.e[j].from && a.e[i].lab != EPS && a.e[j].lab != EPS && a.e[i].to != a.e[j].to) {
			unsigned c, o = 0; for (c = 0; c < 256; c++) o |= in_pal(a.e[i].lab, c) & in_pal(a.e[j].lab, c); if (o) dfa = 0; } }
	sx_word(w, L); r.p = w; r.n = L; r.i = r.calls = r.eof = 0; errno = 0;
	if (!dfa || none) { x = fsm_exec(f, rgetc, &r, &end, NULL); sx_assert(x == -1 && errno == EINVAL, "an automaton that is not a DFA or has no start was executed"); sx_assert(r.calls == 0, "input was read for an automaton that is refused"); sx_reach("refused"); }
	else one(f, &a, w, L);
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
/* long inputs over long chains; the ready-made readers */
void h_long(void) {
	struct fsm *f = fsm_new(NULL); unsigned n = sx_param("N", 300), i, at = sx_choice("where", 4) * (n - 1) / 3, how = sx_choice("reader", 3), fail; static unsigned char w[1024]; fsm_state_t end; int x; unsigned char c;
	fsm_addstate_bulk(f, n + 1); fsm_setstart(f, 0);
	for (i = 0; i < n; i++) fsm_addedge_literal(f, i, i + 1, (char) (1 + i % 255));
	fsm_setend(f, n, 1); if (sx_choice("loop", 2)) fsm_addedge_any(f, n, n);
	for (i = 0; i < n; i++) w[i] = 1 + i % 255; w[n] = 0;
	c = w[at]; w[at] = sx_byte("w"); 
	if (how == 0) { struct rd r; r.p = w; r.n = n; r.i = r.calls = r.eof = 0; x = fsm_exec(f, rgetc, &r, &end, NULL); sx_assert(x == (w[at] == c), "wrong verdict"); sx_assert(r.calls == (w[at] == c ? n + 1 : at + 1), "number of bytes read"); }
	else if (how == 1) { const char *s = (const char *) w; x = fsm_exec(f, fsm_sgetc, &s, &end, NULL); sx_assert(x == (w[at] == c), "wrong verdict"); sx_assert(s == (const char *) w + (w[at] == c ? n : w[at] == 0 ? at : at + 1), "fsm_sgetc: position after execution"); }
	else { FILE *fp = sx_mem_reader(w, n); x = fsm_exec(f, fsm_fgetc, fp, &end, NULL); sx_assert(x == (w[at] == c), "wrong verdict"); sx_mem_close(fp); }
	if (x == 1) sx_assert(end == n, "wrong end state");
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_exec");
}
