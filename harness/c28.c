#include "h.h"
#include <fsm/capture.h>
#include <fsm/walk.h>
/* Captures over automata without cycles (but self loops): a capture from s to t holds the offset at which the input
 * leaves s for another state (or first stands on s, when s is t), and the last offset at which it stands on t. */
static struct aut A; static unsigned rank_[8]; static struct { unsigned s, t, id; } cp[4]; static unsigned ncp;
static void draw_dag(unsigned n, unsigned nlab, unsigned maxe, int loops) {
	unsigned i, l, p; static const uint8_t perm[4][4] = { { 0, 1, 2, 3 }, { 3, 2, 1, 0 }, { 2, 0, 3, 1 }, { 1, 3, 0, 2 } };
	A.n = n; A.ne = 0; A.hasstart = 1; A.ends = 0; p = sx_choice("numbering", sx_param("perms", 2));
	for (i = l = 0; i < 4; i++) if (perm[p][i] < n) rank_[l++] = perm[p][i]; /* rank_[place] = state */
	A.start = rank_[0];
	for (i = 0; i < n; i++) if (sx_choice("end", 2)) A.ends |= bit(rank_[i]);
	for (i = 0; i < n; i++) for (l = 0; l < nlab; l++) {
		unsigned lo = loops ? i : i + 1, t = A.ne < maxe && lo < n ? sx_choice("to", n - lo + 1) : 0;
		if (t) { A.e[A.ne].from = rank_[i]; A.e[A.ne].to = rank_[lo + t - 1]; A.e[A.ne].lab = l; A.ne++; }
	}
}
static void check_run(const struct fsm *f, const unsigned char *w, unsigned L, int zero) {
	struct wbuf b; fsm_state_t end; struct fsm_capture c[12]; unsigned vis[9], i, j, k, e, s = A.start, count = fsm_countcaptures(f); int r;
	sx_assert(count <= 10, "more captures than ids"); for (i = 0; i < 12; i++) { c[i].pos[0] = 77; c[i].pos[1] = ~(size_t) 0 / 2 + 78; } /* what was there must not matter */
	b.p = w; b.n = L; b.i = 0; r = fsm_exec(f, wgetc, &b, &end, c);
	{ fsm_state_t st; if (r == -1 && !fsm_getstart(f, &st)) r = 0; }
	vis[0] = s; for (i = 0; i < L; i++) { unsigned nx = A.n; for (e = 0; e < A.ne; e++) if (A.e[e].from == s && in_pal(A.e[e].lab, w[i])) nx = A.e[e].to; if (nx == A.n) break; vis[i + 1] = s = nx; }
	sx_assert(r == (i == L && (A.ends >> s & 1)), "the verdict is not that of the automaton"); if (r != 1) { sx_reach("no match"); return; }
	for (i = 0; i < count; i++) {
		size_t p0 = FSM_CAPTURE_NO_POS, p1 = FSM_CAPTURE_NO_POS;
		for (k = 0; k < ncp; k++) if (cp[k].id == i) break;
		if (k < ncp) {
			int fs = -1, ls = -1, lt = -1;
			for (j = 0; j <= L; j++) { if (vis[j] == cp[k].s) { if (fs < 0) fs = j; ls = j; } if (vis[j] == cp[k].t) lt = j; }
			if (fs >= 0 && lt >= 0 && lt >= fs) { p0 = cp[k].s == cp[k].t ? fs : ls; p1 = lt; }
		}
		sx_assert(c[i].pos[0] == p0, p0 == FSM_CAPTURE_NO_POS ? "a capture whose path was not followed has a position" : "a capture begins elsewhere");
		sx_assert(c[i].pos[1] == p1, "a capture ends elsewhere"); if (p0 != FSM_CAPTURE_NO_POS) sx_reach("captured");
	}
	for (; i < 12; i++) sx_assert(c[i].pos[0] == 77 && c[i].pos[1] == ~(size_t) 0 / 2 + 78, "positions past the last capture were written");
	for (k = 0; k < ncp; k++) if (cp[k].id >= count) { int fs = 0, lt = 0; for (j = 0; j <= L; j++) { if (vis[j] == cp[k].s) fs = 1; if (vis[j] == cp[k].t && fs) lt = 1; } sx_assert(!lt, "a capture is not counted"); }
	(void) zero;
}
static void draw_caps(struct fsm *f, unsigned K, int zero) {
	unsigned k; static const uint8_t ids[] = { 1, 0, 4 };
	for (ncp = k = 0; k < K; k++) {
		cp[k].s = sx_choice("from", A.n); cp[k].t = sx_choice("till", A.n); cp[k].id = ids[k]; sx_assume(zero || cp[k].s != cp[k].t);
		sx_assert(fsm_capture_set_path(f, cp[k].id, cp[k].s, cp[k].t), "fsm_capture_set_path failed"); ncp++;
	}
}
enum { O_NONE, O_CLONE, O_DET, O_SHUFFLE, O_TRIM, O_EPS, O_MIN, O_VACUUM, O_COUNT };
static struct fsm *apply(struct fsm *f, unsigned o) {
	struct fsm *g;
	switch (o) {
	case O_CLONE: g = fsm_clone(f); sx_assert(g, "fsm_clone failed"); fsm_free(f); return g;
	case O_DET: sx_assert(fsm_determinise(f), "fsm_determinise failed"); return f;
	case O_EPS: sx_assert(fsm_remove_epsilons(f), "fsm_remove_epsilons failed"); return f;
	case O_TRIM: sx_assert(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "fsm_trim failed"); return f;
	case O_SHUFFLE: sx_assert(fsm_shuffle(f, sx_choice("seed", 4)), "fsm_shuffle failed"); return f;
	case O_MIN: sx_assert(fsm_minimise(f), "fsm_minimise failed"); return f;
	case O_VACUUM: sx_assert(fsm_vacuum(f), "fsm_vacuum failed"); return f;
	}
	return f;
}
void h_exec(void) {
	struct fsm *f; unsigned L, i; unsigned char w[8]; int zero = sx_param("zero", 1); unsigned o = sx_param("op", -1);
	use_pal(PAL_D, sx_param("labels", 2)); draw_dag(sx_param("N", 3), NPAL, sx_param("E", 9), sx_param("loops", 1)); f = build(&A, NULL);
	if (A.n > 0) draw_caps(f, sx_param("K", 1), zero);
	for (i = 0; i < (unsigned) sx_param("ops", 0); i++) f = apply(f, o < O_COUNT ? o : sx_choice("op", sx_param("nops", 6)));
	L = sx_choice("length", sx_param("L", 3) + 1); for (i = 0; i < L; i++) w[i] = sx_byte("w"); check_run(f, w, L, zero); fsm_free(f); sx_reach("checked"); NO_LEAK("captures");
}
/* only what the input followed: used where states were merged and a capture not followed may be reported as well */
static void spec(const struct aut *a, unsigned k, const unsigned char *w, unsigned L, int *acc, size_t *p0, size_t *p1) {
	unsigned vis[9], i, j, e, s = a->start; int fs = -1, ls = -1, lt = -1; *p0 = *p1 = FSM_CAPTURE_NO_POS;
	vis[0] = s; for (i = 0; i < L; i++) { unsigned nx = a->n; for (e = 0; e < a->ne; e++) if (a->e[e].from == s && in_pal(a->e[e].lab, w[i])) nx = a->e[e].to; if (nx == a->n) break; vis[i + 1] = s = nx; }
	*acc = i == L && (a->ends >> s & 1); if (!*acc) return;
	for (j = 0; j <= L; j++) { if (vis[j] == cp[k].s) { if (fs < 0) fs = j; ls = j; } if (vis[j] == cp[k].t) lt = j; }
	if (fs >= 0 && lt >= fs) { *p0 = cp[k].s == cp[k].t ? fs : ls; *p1 = lt; }
}
static void check_followed(const struct fsm *f, const struct aut *a, const unsigned *id, unsigned na, const unsigned char *w, unsigned L) {
	struct wbuf b; fsm_state_t end; struct fsm_capture c[12]; unsigned i, count = fsm_countcaptures(f); int r, acc[2], any = 0; size_t p0[2], p1[2];
	for (i = 0; i < 12; i++) { c[i].pos[0] = 77; c[i].pos[1] = ~(size_t) 0 / 2 + 78; } /* what was there must not matter */
	b.p = w; b.n = L; b.i = 0; r = fsm_exec(f, wgetc, &b, &end, c); { fsm_state_t st; if (r == -1 && !fsm_getstart(f, &st)) r = 0; }
	for (i = 0; i < na; i++) { spec(&a[i], i, w, L, &acc[i], &p0[i], &p1[i]); any |= acc[i]; }
	sx_assert(r == any, "the verdict is not that of the automaton"); if (r != 1) { sx_reach("no match"); return; }
	for (i = 0; i < na; i++) if (acc[i] && p0[i] != FSM_CAPTURE_NO_POS) {
		sx_reach("captured"); sx_assert(id[i] < count, "a capture is not counted");
		sx_assert(c[id[i]].pos[0] == p0[i], "a followed capture begins elsewhere"); sx_assert(c[id[i]].pos[1] == p1[i], "a followed capture ends elsewhere");
	}
	for (i = 0; i < count && i < 12; i++) sx_assert((c[i].pos[0] == FSM_CAPTURE_NO_POS) == (c[i].pos[1] == FSM_CAPTURE_NO_POS), "a capture has one position only");
	for (i = 0; i < count && i < 12; i++) if (c[i].pos[0] != FSM_CAPTURE_NO_POS) sx_assert(c[i].pos[0] <= c[i].pos[1] && c[i].pos[1] <= L, "a capture is outside the input");
	for (i = count; i < 12; i++) sx_assert(c[i].pos[0] == 77 && c[i].pos[1] == ~(size_t) 0 / 2 + 78, "positions past the last capture were written");
}
void h_minimise(void) {
	unsigned nb; struct fsm *f; unsigned L, i, id[1]; unsigned char w[8];
	use_pal(PAL_D, sx_param("labels", 2)); draw_dag(sx_param("N", 3), NPAL, sx_param("E", 4), sx_param("loops", 1)); f = build(&A, NULL);
	draw_caps(f, 1, sx_param("zero", 1)); id[0] = cp[0].id;
	sx_assert(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "fsm_trim failed"); nb = fsm_countstates(f); sx_assert(fsm_minimise(f), "fsm_minimise failed");
	if (nb != fsm_countstates(f) && !sx_param("merged", 0)) { sx_reach("states merged"); id[0] = 99; cp[0].s = 7; } else sx_reach("none merged");
	L = sx_choice("length", sx_param("L", 3) + 1); for (i = 0; i < L; i++) w[i] = sx_byte("w"); if (id[0] == 99) check_followed(f, &A, id, 1, w, L); else check_run(f, w, L, 1); fsm_free(f); sx_reach("checked"); NO_LEAK("captures");
}
void h_union(void) {
	static struct aut B[2]; struct fsm *f[2], *g; unsigned L, i, k, id[2]; unsigned char w[8]; struct fsm_combine_info ci; static const uint8_t ids[2] = { 0, 2 };
	use_pal(PAL_D, sx_param("labels", 1));
	for (k = 0; k < 2; k++) {
		draw_dag(k ? sx_param("M", 2) : sx_param("N", 2), NPAL, sx_param("E", 4), sx_param("loops", 0)); B[k] = A; f[k] = build(&A, NULL); cp[k].s = sx_choice("from", A.n); cp[k].t = sx_choice("till", A.n);
		cp[k].id = ids[k]; sx_assume(sx_param("zero", 1) || cp[k].s != cp[k].t); sx_assert(fsm_capture_set_path(f[k], cp[k].id, cp[k].s, cp[k].t), "fsm_capture_set_path failed");
	}
	for (k = 0; k < 2; k++) id[k] = fsm_countcaptures(f[k]);
	{ unsigned ca = id[0], cb = id[1]; g = fsm_union(f[0], f[1], &ci); sx_assert(g, "fsm_union failed");
	sx_assert(ci.capture_base_a == 0 ? ci.capture_base_b == ca : ci.capture_base_b == 0 && ci.capture_base_a == cb, "the captures are rebased differently");
	sx_assert(fsm_countcaptures(g) == ca + cb, "a union has other captures than its operands"); }
	id[0] = cp[0].id + ci.capture_base_a; id[1] = cp[1].id + ci.capture_base_b;
	sx_assert(fsm_determinise(g), "fsm_determinise failed"); if (sx_param("min", 0)) sx_assert(fsm_minimise(g), "fsm_minimise failed");
	L = sx_choice("length", sx_param("L", 3) + 1); for (i = 0; i < L; i++) w[i] = sx_byte("w"); check_followed(g, B, id, 2, w, L); fsm_free(g); sx_reach("checked"); NO_LEAK("captures");
}
/* removing a state keeps the captures of what is left */
void h_remove(void) {
	struct fsm *f; unsigned L, i, j, k; unsigned char w[8]; unsigned d;
	use_pal(PAL_D, sx_param("labels", 2)); draw_dag(sx_param("N", 3), NPAL, sx_param("E", 4), sx_param("loops", 1)); f = build(&A, NULL);
	draw_caps(f, sx_param("K", 1), sx_param("zero", 1)); d = sx_choice("removed", A.n); sx_assume(d != A.start);
	/* a capture over the removed state cannot be followed any more */
	sx_assert(fsm_removestate(f, d), "fsm_removestate failed");
	for (i = j = 0; i < A.ne; i++) if (A.e[i].from != d && A.e[i].to != d) A.e[j++] = A.e[i];
	A.ne = j; A.ends &= ~bit(d);
	L = sx_choice("length", sx_param("L", 2) + 1); for (i = 0; i < L; i++) w[i] = sx_byte("w");
	(void) k; check_run(f, w, L, 1); fsm_free(f); sx_reach("checked"); NO_LEAK("captures");
}
/* no captures wanted; ids moved; two captures */
void h_api(void) {
	struct fsm *f; unsigned L, i, k, base; unsigned char w[8]; struct wbuf b; fsm_state_t end, i2; int r;
	use_pal(PAL_D, sx_param("labels", 1)); draw_dag(sx_param("N", 3), NPAL, sx_param("E", 4), sx_param("loops", 1)); f = build(&A, NULL);
	sx_assert(fsm_countcaptures(f) == 0, "captures without a path"); for (i2 = 0; i2 < A.n; i2++) sx_assert(!fsm_capture_has_capture_actions(f, i2), "capture actions without a path");
	draw_caps(f, sx_param("K", 2), sx_param("zero", 1)); base = sx_choice("base", 3); fsm_capture_rebase_capture_id(f, base); for (k = 0; k < ncp; k++) cp[k].id += base;
	L = sx_choice("length", sx_param("L", 2) + 1); for (i = 0; i < L; i++) w[i] = sx_byte("w");
	b.p = w; b.n = L; b.i = 0; r = fsm_exec(f, wgetc, &b, &end, NULL); sx_assert(r == sim_word(&A, w, L), "the verdict without captures is different");
	check_run(f, w, L, 1); fsm_free(f); sx_reach("checked"); NO_LEAK("captures");
}
/* long paths and many captures: the trail and the table of actions grow */
void h_chain(void) {
	struct fsm *f; fsm_state_t end; unsigned n = sx_param("N", 12), i, k, nc = 0, d, off[80], L = 0, o; unsigned char w[80]; struct wbuf b; struct fsm_capture c[80]; struct { unsigned s, t; } q[80]; int r;
	f = fsm_new(NULL); sx_assert(f && fsm_addstate_bulk(f, n), "fsm_addstate_bulk failed"); fsm_setstart(f, 0); fsm_setend(f, n - 1, 1);
	for (i = 0; i < n; i++) {
		off[i] = L; if (i + 1 == n) break;
		sx_assert(fsm_addedge_literal(f, i, i + 1, 'a' + i % 2), "fsm_addedge_literal failed"); w[L++] = 'a' + i % 2;
	}
	d = 1 + sx_choice("span", n - 1); k = sx_choice("first", n - 1);
	for (i = k; i + d < n && nc < (unsigned) sx_param("K", 80); i++) { q[nc].s = i; q[nc].t = i + d; sx_assert(fsm_capture_set_path(f, nc, i, i + d), "fsm_capture_set_path failed"); nc++; }
	sx_assume(nc > 0); sx_assert(fsm_countcaptures(f) == nc, "captures are not counted");
	o = sx_choice("op", sx_param("nops", O_MIN));
	f = apply(f, o);
	for (i = 0; i < 80; i++) { c[i].pos[0] = 77; c[i].pos[1] = ~(size_t) 0 / 2 + 78; } /* what was there must not matter */
	b.p = w; b.n = L; b.i = 0; r = fsm_exec(f, wgetc, &b, &end, c); sx_assert(r == 1, "the chain does not match");
	for (i = 0; i < nc; i++) {
		sx_reach("captured"); sx_assert(c[i].pos[0] == off[q[i].s], "a capture begins elsewhere"); sx_assert(c[i].pos[1] == off[q[i].t], "a capture ends elsewhere");
	}
	for (; i < 80; i++) sx_assert(c[i].pos[0] == 77 && c[i].pos[1] == ~(size_t) 0 / 2 + 78, "positions past the last capture were written");
	fsm_free(f); sx_reach("checked"); NO_LEAK("captures");
}
/* b*a with a needless state: minimising merges the states of a capture over the first with the one after it */
void h_known_minimise(void) {
	struct fsm *f; static const unsigned char w[] = "ba"; static const struct { uint8_t from, to, lab; } e[] = { { 0, 2, 0 }, { 0, 1, 1 }, { 1, 2, 0 }, { 1, 1, 1 } }; unsigned i;
	use_pal(PAL_D, 2); A.n = 3; A.ne = 4; A.hasstart = 1; A.start = 0; A.ends = 4; for (i = 0; i < 4; i++) { A.e[i].from = e[i].from; A.e[i].to = e[i].to; A.e[i].lab = e[i].lab; }
	f = build(&A, NULL); cp[0].s = cp[0].t = cp[0].id = 0; ncp = 1; sx_assert(fsm_capture_set_path(f, 0, 0, 0), "fsm_capture_set_path failed"); sx_assert(fsm_minimise(f), "fsm_minimise failed");
	sx_reach("minimised"); check_run(f, w, 2, 1); fsm_free(f);
}
