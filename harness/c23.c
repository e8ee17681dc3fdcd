#include "h.h"
#include <adt/stateset.h>
#include <adt/bitmap.h>
#include "libfsm/internal.h"
#include <adt/edgeset.h>
/* Sets of states and sets of edges against masks.  State numbers are drawn from a pool in
 * ascending order whose values are unconstrained, so every relative order is covered. */
static fsm_state_t v[24]; static unsigned nv;
static fsm_state_t sym32(const char *n) { fsm_state_t r = 0; unsigned i; for (i = 0; i < 4; i++) r = r << 8 | sx_byte(n); return r; }
static void pool(unsigned n, fsm_state_t max) {
	unsigned i; nv = n;
	for (i = 0; i < n; i++) { v[i] = sym32("state"); sx_assume(v[i] <= max); if (i) sx_assume(v[i] > v[i - 1]); }
}
static unsigned map[24];	/* index to index, 99 is "dropped" */
static fsm_state_t remap(fsm_state_t s, const void *opaque) {
	unsigned i; (void) opaque;
	for (i = 0; i < nv; i++) if (v[i] == s) return map[i] == 99 ? FSM_STATE_REMAP_NO_STATE : v[map[i]];
	sx_fail("a state that is not in the set is renumbered"); return s;
}
static unsigned pop(mask_t m) { unsigned r = 0; for (; m; m &= m - 1) r++; return r; }
static mask_t mapmask(mask_t m) { unsigned i; mask_t r = 0; for (i = 0; i < nv; i++) if (m >> i & 1 && map[i] != 99) r |= bit(map[i]); return r; }
static void drawmap(void) { unsigned i; for (i = 0; i < nv; i++) { unsigned k = sx_choice("new", nv + 1); map[i] = k == nv ? 99 : k; } }

/* state sets */
static mask_t pmask; static const struct fsm *pf;
static int pred(const struct fsm *f, fsm_state_t s) { unsigned i; sx_assert(f == pf, "state_set_has passes another automaton"); for (i = 0; i < nv; i++) if (v[i] == s) return pmask >> i & 1; return 0; }
static void look(struct state_set *s, mask_t m) {
	struct state_iter it; fsm_state_t x, last = 0; unsigned i, n = 0; mask_t got = 0; static char dummy;
	sx_assert(state_set_empty(s) == (m == 0), "state_set_empty is wrong");
	sx_assert(state_set_count(s) == pop(m), "state_set_count is wrong");
	for (i = 0; i < nv; i++) sx_assert(!!state_set_contains(s, v[i]) == (m >> i & 1), "state_set_contains is wrong");
	for (state_set_reset(s, &it); state_set_next(&it, &x); n++) {
		sx_assert(n < 32, "iteration over a set of states does not end");
		sx_assert(n == 0 || x > last, "iteration over a set of states is not in ascending order"); last = x;
		for (i = 0; i < nv; i++) if (v[i] == x) break;
		sx_assert(i < nv && (m >> i & 1), "iteration over a set of states gives something not in the set"); got |= bit(i);
	}
	sx_assert(got == m, "iteration over a set of states misses an element");
	sx_assert(!state_set_next(&it, &x), "iteration continues after its end");
	if (pop(m) == 1) { for (i = 0; !(m >> i & 1); i++) ; sx_assert(state_set_only(s) == v[i], "state_set_only is wrong"); }
	if (m) { pf = (void *) &dummy; pmask = m & -m; sx_assert(state_set_has(pf, s, pred), "state_set_has misses an element"); pmask = ~m; sx_assert(!state_set_has(pf, s, pred), "state_set_has finds something not in the set"); }
	sx_reach("looked");
}
static struct state_set *A, *B; static mask_t a, b;
static void sop(unsigned kinds) {
	fsm_state_t arr[8]; unsigned i, j, n; struct state_set *t; mask_t u;
	switch (sx_choice("op", kinds)) {
	case 0: i = sx_choice("which", nv); sx_assert(state_set_add(&A, NULL, v[i]), "state_set_add failed"); a |= bit(i); break;
	case 1: i = sx_choice("which", nv); state_set_remove(&A, v[i]); a &= ~bit(i); break;
	case 2: i = sx_choice("which", nv); j = sx_choice("with", nv); state_set_replace(&A, v[i], v[j]); if (a >> i & 1) { a &= ~bit(i); a |= bit(j); } break;
	case 3: n = sx_choice("length", 4); for (i = 0; i < n; i++) { j = sx_choice("which", nv); arr[i] = v[j]; a |= bit(j); }
		sx_assert(state_set_add_bulk(&A, NULL, arr, n), "state_set_add_bulk failed"); break;
	case 4: sx_assert(state_set_copy(&B, NULL, A), "state_set_copy failed"); b |= a; break;
	case 5: t = A; A = B; B = t; u = a; a = b; b = u; break;
	case 6: drawmap(); state_set_compact(&A, (fsm_state_remap_fun *) remap, NULL); a = mapmask(a); break;
	case 7: { fsm_state_t base = sym32("base"); for (i = 0; i < nv; i++) { sx_assume(v[i] + base >= v[i] && v[i] + base != (fsm_state_t) -1); v[i] += base; }
		state_set_rebase(&A, base); state_set_rebase(&B, base); } break;
	}
}
static void sdone(void) { look(A, a); look(B, b); if (A && B && a && b) {
		int c = state_set_cmp(A, B); sx_assert((c == 0) == (a == b), "state_set_cmp finds sets equal that are not, or the reverse");
		sx_assert((c < 0) == (state_set_cmp(B, A) > 0), "state_set_cmp is not antisymmetric"); }
	state_set_free(A); state_set_free(B); NO_LEAK("state sets"); }
void h_states(void) { unsigned K = sx_param("K", 3), i; pool(sx_param("V", 3), 0xfffffffe); for (i = 0; i < K; i++) sop(sx_param("ops", 8)); sdone(); }
/* past the initial capacity: n states two apart, then one operation with an unconstrained state */
void h_grow(void) {
	unsigned n = 1 + sx_choice("n", sx_param("M", 18)), order = sx_choice("order", 4), i, x, y, in, iny, cnt = 0, op; fsm_state_t arr[32], s, last = 0; struct state_iter it;
	for (i = 0; i < n; i++) arr[i] = 10 + 2 * (order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : (i & 1 ? n - 1 - i / 2 : i / 2));
	if (order == 2 && n % 7 == 0) return;
	switch (sx_choice("how", 3)) {
	case 0: for (i = 0; i < n; i++) sx_assert(state_set_add(&A, NULL, arr[i]), "state_set_add failed"); break;
	case 1: sx_assert(state_set_add_bulk(&A, NULL, arr, n), "state_set_add_bulk failed"); break;
	case 2: sx_assert(state_set_add_bulk(&A, NULL, arr, n / 2) && state_set_add_bulk(&A, NULL, arr + n / 3, n - n / 3), "state_set_add_bulk failed"); break;
	}
	x = sx_byte("state"); in = x >= 10 && x < 10 + 2 * n && !(x & 1); y = 10 + 2 * n - 3; iny = 0;
	sx_assert(!!state_set_contains(A, x) == !!in, "state_set_contains is wrong");
	op = sx_choice("op", 3);
	if (op == 0) sx_assert(state_set_add(&A, NULL, x), "state_set_add failed");
	if (op == 1) state_set_remove(&A, x);
	if (op == 2) { sx_assume(x != y); state_set_replace(&A, x, y); iny = in; }
	sx_assert(state_set_count(A) == n + (op == 0 ? !in : op == 1 ? -in : 0), "state_set_count is wrong");
	for (state_set_reset(A, &it); state_set_next(&it, &s); cnt++) {
		sx_assert(cnt == 0 || s > last, "iteration over a set of states is not in ascending order"); last = s;
		sx_assert(op == 0 ? s == x || (s >= 10 && s < 10 + 2 * n && !(s & 1)) : op == 1 ? s != x && s >= 10 && s < 10 + 2 * n && !(s & 1) : (s != x && s >= 10 && s < 10 + 2 * n && !(s & 1)) || (iny && s == y), "a set of states holds a state it should not");
	}
	sx_assert(cnt == state_set_count(A), "iteration and count disagree");
	sx_assert(!!state_set_contains(A, x) == (op == 0), "state_set_contains is wrong after the change");
	sx_reach("looked"); state_set_free(A); NO_LEAK("state sets");
}

/* edge sets */
typedef struct { uint64_t w[4]; } syms;
#define NS 3
static syms EA[NS], EB[NS]; static struct edge_set *X, *Y; static int ecs_ok;
static const unsigned char LAB[] = { 'a', 63, 64, 255, 0 };
static int has(const syms *m, unsigned c) { return m->w[c >> 6] >> (c & 63) & 1; }
static void put(syms *m, unsigned c) { m->w[c >> 6] |= (uint64_t) 1 << (c & 63); }
static int none(const syms *m) { return (m->w[0] | m->w[1] | m->w[2] | m->w[3]) == 0; }
static unsigned which(fsm_state_t s) { unsigned i; for (i = 0; i < nv; i++) if (v[i] == s) return i; sx_fail("an edge leads to a state it should not"); return 0; }
static void elook(struct edge_set *s, const syms *m, const unsigned char *lab, unsigned nlab) {
	syms got[NS], dup; unsigned i, j, k, n = 0, cnt = 0, last = 0; int any = 0; struct edge_iter it; struct edge_ordered_iter oi; struct edge_group_iter gi; struct edge_group_iter_info info; struct fsm_edge e; fsm_state_t st; struct bm bm;
	memset(&dup, 0, sizeof dup);
	for (j = 0; j < 4; j++) { uint64_t u = 0; for (i = 0; i < NS; i++) { dup.w[j] |= u & m[i].w[j]; u |= m[i].w[j]; } if (u) any = 1; }
	for (i = 0; i < NS; i++) for (j = 0; j < 4; j++) { uint64_t t = m[i].w[j]; for (; t; t &= t - 1) cnt++; }
	sx_assert(edge_set_empty(s) == !any, "edge_set_empty is wrong");
	sx_assert(edge_set_count(s) == cnt, "edge_set_count is wrong");
	memset(got, 0, sizeof got);
	for (edge_set_reset(s, &it); edge_set_next(&it, &e); n++) { i = which(e.state); sx_assert(has(&m[i], e.symbol), "iteration gives an edge that is not in the set"); sx_assert(!has(&got[i], e.symbol), "iteration gives an edge twice"); put(&got[i], e.symbol); }
	sx_assert(n == cnt, "iteration misses an edge");
	for (k = 0; k <= nlab; k++) {
		memset(got, 0, sizeof got); n = 0; if (k == nlab) edge_set_ordered_iter_reset(s, &oi); else edge_set_ordered_iter_reset_to(s, &oi, lab[k]);
		last = k == nlab ? 0 : lab[k];
		while (edge_set_ordered_iter_next(&oi, &e)) { i = which(e.state); sx_assert(e.symbol >= last, "ordered iteration goes back to an earlier label"); last = e.symbol; sx_assert(has(&m[i], e.symbol) && !has(&got[i], e.symbol), "ordered iteration gives an edge twice, or one that is not there"); put(&got[i], e.symbol); n++; }
		for (i = 0; i < NS; i++) for (j = k == nlab ? 0 : lab[k]; j < 256; j++) if (has(&m[i], j)) sx_assert(has(&got[i], j), "ordered iteration misses an edge");
	}
	memset(got, 0, sizeof got); edge_set_group_iter_reset(s, EDGE_GROUP_ITER_ALL, &gi);
	while (edge_set_group_iter_next(&gi, &info)) { i = which(info.to); sx_assert(none(&got[i]), "a destination is given twice"); memcpy(&got[i], info.symbols, sizeof got[i]); sx_assert(!none(&got[i]), "an empty group is given"); }
	sx_assert(!memcmp(got, m, sizeof got), "iteration over groups gives other edges");
	memset(got, 0, sizeof got); edge_set_group_iter_reset(s, EDGE_GROUP_ITER_UNIQUE, &gi);
	while (edge_set_group_iter_next(&gi, &info)) { i = which(info.to); any = 0;
		for (j = 0; j < 4; j++) { if (info.symbols[j]) any = 1; sx_assert(!(info.symbols[j] & (info.unique ? dup.w[j] : ~dup.w[j])), "unique and shared labels are mixed up"); sx_assert(!(got[i].w[j] & info.symbols[j]), "a label is given twice"); got[i].w[j] |= info.symbols[j]; }
		sx_assert(any, "an empty group is given"); }
	sx_assert(!memcmp(got, m, sizeof got), "iteration over unique groups gives other edges");
	for (k = 0; k < nlab; k++) {
		unsigned c = lab[k], in = has(&m[0], c) | has(&m[1], c) | has(&m[2], c);
		sx_assert(!!edge_set_contains(s, c) == in, "edge_set_contains is wrong");
		sx_assert(!!edge_set_find(s, c, &e) == in, "edge_set_find is wrong");
		if (in) sx_assert(e.symbol == c && has(&m[which(e.state)], c), "edge_set_find gives a wrong edge");
		sx_assert(!!edge_set_transition(s, c, &st) == in, "edge_set_transition is wrong");
		if (in) sx_assert(has(&m[which(st)], c), "edge_set_transition gives a wrong state");
		if (ecs_ok && none(&dup)) {
			fsm_state_t ec[3] = { 0, 0, 0 }; uint64_t l[4], w[4] = { 0, 0, 0, 0 }; unsigned p;
			for (p = 0; p < 5; p++) {
				ec[1] = p == 1 || p == 2; ec[2] = p == 2 || p == 3 ? 1 : p == 4 ? 0 : 2; if (p == 4) ec[0] = 7;
				sx_assert(!!edge_set_check_edges_with_EC_mapping(s, c, 3, ec, &st, l) == in, "edge_set_check_edges_with_EC_mapping is wrong");
				if (!in) continue;
				sx_assert(has(&m[st], c), "edge_set_check_edges_with_EC_mapping gives a wrong state");
				for (j = 0; j < 4; j++) { w[j] = 0; for (i = 0; i < 3; i++) if (ec[i] == ec[st]) w[j] |= m[i].w[j]; sx_assert(l[j] == w[j], "edge_set_check_edges_with_EC_mapping gives wrong labels"); }
			}
		}
	}
	bm_clear(&bm); sx_assert(!!edge_set_hasnondeterminism(s, &bm) == !none(&dup), "edge_set_hasnondeterminism is wrong");
	sx_reach("looked");
}
static void mask_of(syms *m, unsigned k) {
	memset(m, 0, sizeof *m);
	switch (k) { case 0: put(m, 'a'); break; case 1: put(m, 63); put(m, 64); break; case 2: put(m, 0); put(m, 255); put(m, 'a'); break; case 3: memset(m, 255, sizeof *m); break; case 4: m->w[1] = ~(uint64_t) 0; break; case 5: break; }
}
static void ebulk(struct edge_set **s, syms *model, unsigned st, unsigned k) {
	syms m; unsigned j; mask_of(&m, k); sx_assert(edge_set_add_bulk(s, NULL, m.w, v[st]), "edge_set_add_bulk failed"); for (j = 0; j < 4; j++) model[st].w[j] |= m.w[j];
}
static void eop(unsigned kinds, unsigned nlab, unsigned nm) {
	unsigned i, j, k, l, m; syms t[NS]; struct edge_set *u;
	switch (sx_choice("op", kinds)) {
	case 0: l = LAB[sx_choice("label", nlab)]; i = sx_choice("to", nv); sx_assert(edge_set_add(&X, NULL, l, v[i]), "edge_set_add failed"); put(&EA[i], l); break;
	case 1: l = LAB[sx_choice("label", nlab)]; edge_set_remove(&X, l); for (i = 0; i < NS; i++) EA[i].w[l >> 6] &= ~((uint64_t) 1 << (l & 63)); break;
	case 2: i = sx_choice("to", nv); edge_set_remove_state(&X, v[i]); memset(&EA[i], 0, sizeof EA[i]); break;
	case 3: i = sx_choice("old", nv); j = sx_choice("new", nv); sx_assert(edge_set_replace_state(&X, NULL, v[i], v[j]), "edge_set_replace_state failed");
		if (i != j) { for (k = 0; k < 4; k++) EA[j].w[k] |= EA[i].w[k]; memset(&EA[i], 0, sizeof EA[i]); } break;
	case 4: u = X; X = Y; Y = u; memcpy(t, EA, sizeof t); memcpy(EA, EB, sizeof t); memcpy(EB, t, sizeof t); break;
	case 5: sx_assert(edge_set_copy(&Y, NULL, X), "edge_set_copy failed"); for (i = 0; i < NS; i++) for (k = 0; k < 4; k++) EB[i].w[k] |= EA[i].w[k]; break;
	case 6: drawmap(); sx_assert(edge_set_compact(&X, NULL, (fsm_state_remap_fun *) remap, NULL), "edge_set_compact failed");
		memset(t, 0, sizeof t); for (i = 0; i < NS; i++) if (map[i] != 99) for (k = 0; k < 4; k++) t[map[i]].w[k] |= EA[i].w[k]; memcpy(EA, t, sizeof t); break;
	case 7: sx_assert(edge_set_advise_growth(&X, NULL, 1 + 4 * sx_choice("advice", 2)), "edge_set_advise_growth failed"); break;
	case 8: { struct state_set *ss = NULL; m = sx_choice("states", 8); l = LAB[sx_choice("label", nlab)];
		for (i = 0; i < NS; i++) if (m >> i & 1) { sx_assert(state_set_add(&ss, NULL, v[i]), "state_set_add failed"); put(&EA[i], l); }
		sx_assert(edge_set_add_state_set(&X, NULL, l, ss), "edge_set_add_state_set failed"); state_set_free(ss); } break;
	case 9: ebulk(&X, EA, sx_choice("to", nv), sx_choice("labels", nm)); break;
	case 10: { fsm_state_t base = sx_param("small", 0) == 2 ? 1 : sx_choice("far", 2) ? 0xfffff0 : 1; for (i = 0; i < nv; i++) { sx_assume(v[i] + base <= 0xffffff); v[i] += base; } edge_set_rebase(&X, base); edge_set_rebase(&Y, base); ecs_ok = 0; } break;
	}
}
static void epool(void) { static const fsm_state_t big[] = { 5, 70000, 0xfffffe }; unsigned i; nv = NS; ecs_ok = sx_param("small", 0) == 1; if (sx_param("small", 0)) for (i = 0; i < NS; i++) v[i] = ecs_ok ? i : big[i]; else pool(NS, 0xffffff); }
static void edone(void) { elook(X, EA, LAB, 5); elook(Y, EB, LAB, 5); edge_set_free(NULL, X); edge_set_free(NULL, Y); NO_LEAK("edge sets"); }
void h_edges(void) { unsigned K = sx_param("K", 3), i; epool(); X = edge_set_new(); for (i = 0; i < K; i++) eop(sx_param("ops", 11), sx_param("labels", 2), sx_param("masks", 2)); edone(); }
/* any set, then operations */
static void einit(struct edge_set **s, syms *m, unsigned nm) { unsigned i, k; for (i = 0; i < NS; i++) { k = sx_choice("group", nm + 1); if (k == nm) continue; if (k == nm - 1) k = 5; ebulk(s, m, i, k); } }
void h_after(void) { unsigned K = sx_param("K", 1), nm = sx_param("masks", 4), i; epool(); einit(&X, EA, nm); if (sx_param("two", 0)) { einit(&Y, EB, nm); eop(6, 1, 1); } else for (i = 0; i < K; i++) eop(sx_param("ops", 11), 5, 6); edone(); }
/* unconstrained labels */
void h_label(void) {
	unsigned K = sx_param("K", 2), i, s[4], c[4]; unsigned char q; unsigned exp = 0, r; struct fsm_edge e; struct edge_ordered_iter oi; epool();
	for (i = 0; i < K; i++) { s[i] = sx_choice("to", NS); c[i] = i == 0 ? sx_choice("label", 256) : (sx_choice("near", 2) ? c[0] ^ (64 >> sx_choice("bit", 7)) : c[0] + 1) & 255; sx_assert(edge_set_add(&X, NULL, c[i], v[s[i]]), "edge_set_add failed"); }
	r = sx_choice("then", 3); q = sx_byte("sought");
	if (r == 1) edge_set_remove(&X, q);
	for (i = 0; i < K; i++) exp |= (c[i] == q) & (r != 1);
	sx_assert(!!edge_set_contains(X, q) == exp, "edge_set_contains is wrong");
	if (edge_set_find(X, q, &e)) { unsigned ok = 0; for (i = 0; i < K; i++) ok |= (c[i] == q) & (e.state == v[s[i]]); sx_assert(exp && ok && e.symbol == q, "edge_set_find is wrong"); }
	else sx_assert(!exp, "edge_set_find misses an edge");
	if (r == 2) { unsigned best = 256; for (i = 0; i < K; i++) if (c[i] >= q && c[i] < best) best = c[i];
		edge_set_ordered_iter_reset_to(X, &oi, q); sx_assert(edge_set_ordered_iter_next(&oi, &e) == (best < 256) && (best == 256 || e.symbol == best), "ordered iteration does not begin at the next label"); }
	sx_reach("looked"); edge_set_free(NULL, X); NO_LEAK("edge sets");
}
