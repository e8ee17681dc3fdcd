#include "h.h"
#include <fsm/subgraph.h>
#include <fsm/print.h>
#include <fsm/parser.h>
#include <fsm/options.h>
/* Structural rewrites: clone, trim, remove epsilons, complete, shuffle, vacuum, compaction, state
 * addition and removal, merging states, duplicating subgraphs, merging automata. */
static const fsm_end_id_t IDS[] = { 3, 70000 }; static const fsm_output_id_t EOS[] = { 9, 4 };
static struct ext ra, rb, rc, x, y;
static struct aut A;
/* an NFA with end ids and eager outputs; every drawn thing is in r too */
static struct fsm *draw(struct ext *r, int ids) {
	struct fsm *f; unsigned i, any = sx_param("anystart", 1);
	use_pal(PAL_A, sx_param("labels", 2));
	draw_aut(&A, sx_param("N", 3), sx_param("E", 2), NPAL, sx_param("eps", 1), any);
	if (any == 2 && sx_choice("nostart", 2)) A.hasstart = 0;
	x_aut(r, &A); f = build(&A, NULL);
	if (ids) for (i = 0; i < A.n; i++) {
		if (A.ends & bit(i)) { unsigned k = sx_choice("ids", ids > 1 ? 4 : 2) * (ids > 1 ? 1 : 3); if (k & 1) { fsm_endid_set(f, i, IDS[0]); x_col(r, i, 2); } if (k & 2) { fsm_endid_set(f, i, IDS[1]); x_col(r, i, 4); } }
		if (sx_choice("eager", 2)) { unsigned k = i & 1; fsm_eager_output_set(f, i, EOS[k]); x_col(r, i, 1u << (16 + k)); }
	}
	return f;
}
static void of(struct ext *e, const struct fsm *f) { x_of(e, f); x_ids(e, f, IDS, 2, EOS, 2); }
static unsigned same(const struct ext *a, const struct ext *b) { return a->n == b->n && !memcmp(a->col, b->col, a->n * sizeof a->col[0]) ? x_eq(a, b) : 0; }

void h_clone(void) {
	struct fsm *f = draw(&ra, 2), *g, *v; unsigned m, who;
	g = fsm_clone(f); sx_assert(g != NULL, "fsm_clone failed");
	of(&x, f); of(&y, g);
	sx_assert(same(&ra, &x), "fsm_clone changed its source");
	sx_assert(same(&ra, &y), "a clone differs from its source");
	/* change one of the two: the other must stay as it was */
	who = sx_choice("who", 2); v = who ? g : f; m = sx_choice("change", 8);
	switch (m) {
	case 0: { fsm_state_t s; fsm_addstate(v, &s); fsm_setend(v, s, 1); fsm_addedge_any(v, 0, s); fsm_endid_set(v, s, 5); break; }
	case 1: fsm_setend(v, 0, !fsm_isend(v, 0)); fsm_setstart(v, ra.n - 1); break;
	case 2: fsm_setendid(v, 77); fsm_eager_output_set(v, ra.n - 1, 78); break;
	case 3: sx_assert(fsm_determinise(v), "determinise"); break;
	case 4: fsm_removestate(v, 0); break;
	case 5: fsm_trim(v, FSM_TRIM_START_AND_END_REACHABLE, NULL); break;
	case 6: fsm_increndids(v, 9); fsm_addedge_epsilon(v, 0, ra.n - 1); fsm_addedge_literal(v, ra.n - 1, 0, 'z'); break;
	case 7: fsm_free(v); if (who) g = NULL; else f = NULL; break;
	}
	of(&x, who ? f : g);
	sx_assert(same(&ra, &x), "changing one of a clone and its source changed the other"); sx_reach("checked");
	if (f) fsm_free(f); if (g) fsm_free(g); NO_LEAK("fsm_clone");
}
/* what comes out is as good as any other automaton: reversing twice, and printing and reading back, keep its language */
static void usable(const struct fsm *f, const char *msg) {
	static struct ext a, b; struct fsm *g = fsm_clone(f); struct fsm_options o; FILE *w, *r; const char *t; size_t n;
	sx_assert(g && fsm_reverse(g) && fsm_reverse(g), "fsm_reverse"); x_of(&a, f); x_of(&b, g); x_equiv(&a, &b, msg); fsm_free(g);
	if (fsm_countstates(f) == 0) return;
	memset(&o, 0, sizeof o); w = sx_mem_writer(); sx_assert(fsm_print(w, f, &o, NULL, FSM_PRINT_FSM) == 0, "fsm_print"); t = sx_mem_data(w, &n);
	r = sx_mem_reader(t, n); sx_allow_exit(1); g = fsm_parse(r, NULL); sx_allow_exit(0); sx_assert(g != NULL, "what is printed is not read back"); sx_mem_close(r); sx_mem_close(w); x_of(&b, g); x_equiv(&a, &b, msg); fsm_free(g);
}
/* reference for trimming: states outside keep disappear with what is on them */
static void restrict_to(struct ext *d, const struct ext *s, xm keep, unsigned char *map) {
	unsigned i, n = 0; unsigned char m[64];
	for (i = 0; i < s->n; i++) if (keep >> i & 1) m[i] = n++; else m[i] = 255;
	x_init(d, n);
	if (s->hasstart && (keep >> s->start & 1)) { d->hasstart = 1; d->start = m[s->start]; }
	for (i = 0; i < s->n; i++) if (m[i] != 255) x_col(d, m[i], s->col[i]);
	for (i = 0; i < s->ne; i++) if (m[s->e[i].from] != 255 && m[s->e[i].to] != 255) { if (s->e[i].eps) x_eps(d, m[s->e[i].from], m[s->e[i].to]); else x_edge(d, m[s->e[i].from], m[s->e[i].to], s->e[i].lo, s->e[i].hi); }
	if (map) memcpy(map, m, s->n);
}
static unsigned popc(xm m) { unsigned n = 0; for (; m; m &= m - 1) n++; return n; }
void h_trim(void) {
	struct fsm *f = draw(&ra, 1); unsigned mode = sx_choice("mode", 3), i; xm keep = ra.hasstart ? x_reach(&ra, xbit(ra.start)) : 0; long r; unsigned *sed = NULL;
	if (mode) keep &= x_coreach(&ra, ra.ends);
	restrict_to(&rb, &ra, keep, NULL);
	r = fsm_trim(f, mode ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, mode == 2 ? &sed : NULL);
	sx_assert(r >= 0, "fsm_trim failed");
	sx_assert((unsigned long) r == ra.n - rb.n, "fsm_trim reports the wrong number of removed states");
	of(&x, f);
	sx_assert(x.n == popc(keep), "fsm_trim did not remove exactly the useless states");
	sx_assert(x.hasstart == rb.hasstart, "fsm_trim lost or invented a start state");
	if (x.hasstart) sx_assert(popc(x_reach(&x, xbit(x.start))) == x.n, "an unreachable state is left");
	if (mode) sx_assert(popc(x_coreach(&x, x.ends)) == x.n, "a state that cannot reach an accepting state is left");
	x_equiv(&rb, &x, "fsm_trim changed the language or the ids"); sx_reach("checked"); usable(f, "after fsm_trim the automaton cannot be used as another");
	if (sed) { /* distance to the nearest accepting state, in transitions */
		unsigned d[64], k;
		for (i = 0; i < x.n; i++) d[i] = (x.ends >> i & 1) ? 0 : 1000;
		for (k = 0; k < x.n; k++) for (i = 0; i < x.ne; i++) if (d[x.e[i].to] + 1 < d[x.e[i].from]) d[x.e[i].from] = d[x.e[i].to] + 1;
		for (i = 0; i < x.n; i++) sx_assert(sed[i] == d[i], "fsm_trim: wrong shortest distance to an accepting state");
		free(sed);
	}
	fsm_free(f); NO_LEAK("fsm_trim");
}
void h_epsilons(void) {
	struct fsm *f = draw(&ra, sx_param("ids", 1));
	sx_assert(fsm_remove_epsilons(f), "fsm_remove_epsilons failed");
	of(&x, f);
	sx_assert(x.neps == 0, "fsm_remove_epsilons left epsilon transitions");
	sx_assert(!fsm_has(f, fsm_hasepsilons), "fsm_remove_epsilons left epsilon transitions");
	x_equiv(&ra, &x, "fsm_remove_epsilons changed the language or the ids"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_remove_epsilons");
}
void h_complete(void) {
	struct fsm *f = draw(&ra, sx_param("ids", 1)); unsigned i, c = sx_byte("any"), ok;
	sx_assume(ra.hasstart);
	sx_assert(fsm_complete(f, fsm_isany), "fsm_complete failed");
	of(&x, f);
	sx_assert(fsm_all(f, fsm_isdfa), "fsm_complete did not give a DFA"); sx_assert(fsm_all(f, fsm_iscomplete), "fsm_complete left an incomplete state");
	for (i = 0, ok = 1; i < x.n; i++) ok &= x_cstep(&x, x.idx ? i + 1 : xbit(i), c) != 0;
	sx_assert(ok, "fsm_complete: a state has no transition for some byte");
	x_equiv(&ra, &x, "fsm_complete changed the language or the ids"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_complete");
}
void h_shuffle(void) {
	struct fsm *f = draw(&ra, 1); unsigned s = sx_choice("seed", sx_param("S", 16)), big = sx_choice("big", 2);
	of(&y, f);
	sx_assert(fsm_shuffle(f, big ? 0xfffffff0u + s : s), "fsm_shuffle failed");
	of(&x, f);
	sx_assert(x.n == ra.n, "fsm_shuffle changed the number of states");
	x_equiv(&ra, &x, "fsm_shuffle changed the language or the ids");
	sx_assert(popc(x.ends) == popc(y.ends) && x.ne == y.ne && x.neps == y.neps, "fsm_shuffle lost states or transitions"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_shuffle");
}
/* many states: every position must be hit once */
void h_shuffle_big(void) {
	unsigned n = 1 + sx_choice("n", sx_param("MAX", 70)), s = sx_choice("seed", 8), i; struct fsm *f = fsm_new(NULL);
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0); fsm_setend(f, n - 1, 1); fsm_endid_set(f, n - 1, IDS[0]);
	x_init(&ra, n); ra.hasstart = 1; x_col(&ra, n - 1, 3);
	for (i = 0; i + 1 < n; i++) { fsm_addedge_literal(f, i, i + 1, 'a'); x_edge(&ra, i, i + 1, 'a', 'a'); }
	ra.idx = n > 64;
	sx_assert(fsm_shuffle(f, s * 715827883u), "fsm_shuffle failed");
	of(&x, f); x.idx = ra.idx = n > 64;
	sx_assert(x.n == n, "fsm_shuffle changed the number of states");
	x_equiv(&ra, &x, "fsm_shuffle changed the language or the ids"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_shuffle");
}
void h_vacuum(void) {
	unsigned extra = sx_choice("extra", 3) * 130, n = 1 + sx_choice("n", 4), i, after; struct fsm *f = fsm_new_statealloc(NULL, 1 + sx_choice("alloc", 40)); fsm_state_t s;
	x_init(&ra, n); ra.hasstart = 1;
	fsm_addstate_bulk(f, n + extra); fsm_setstart(f, 0);
	for (i = 0; i < n; i++) { if (sx_choice("end", 2)) { fsm_setend(f, i, 1); fsm_endid_set(f, i, IDS[0]); x_col(&ra, i, 3); } fsm_addedge_literal(f, i, (i + 1) % n, 'a' + i); x_edge(&ra, i, (i + 1) % n, 'a' + i, 'a' + i); }
	for (i = n + extra; i-- > n; ) fsm_removestate(f, i);
	sx_assert(fsm_vacuum(f), "fsm_vacuum failed");
	of(&x, f); sx_assert(same(&ra, &x), "fsm_vacuum changed the automaton");
	after = sx_choice("after", 3) * 40;
	for (i = 0; i < after; i++) { sx_assert(fsm_addstate(f, &s), "fsm_addstate failed"); sx_assert(s == n + i, "fsm_addstate numbering"); sx_assert(!fsm_isend(f, s) && fsm_endid_count(f, s) == 0, "a new state is not blank"); }
	sx_assert(fsm_countstates(f) == n + after, "fsm_countstates is wrong"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_vacuum");
}
static int keepcb(fsm_state_t id, void *o) { return *(xm *) o >> id & 1; }
void h_compact(void) {
	struct fsm *f = draw(&ra, 1); xm keep = sx_choice("keep", 1u << ra.n); size_t rem = 99;
	restrict_to(&rb, &ra, keep, NULL);
	sx_assert(fsm_compact_states(f, keepcb, &keep, &rem), "fsm_compact_states failed");
	sx_assert(rem == ra.n - rb.n, "fsm_compact_states reports the wrong number removed");
	of(&x, f); sx_assert(same(&rb, &x), "fsm_compact_states did not keep exactly the chosen states"); sx_reach("checked"); usable(f, "after fsm_compact_states the automaton cannot be used as another");
	{ fsm_state_t s; fsm_addstate(f, &s); sx_assert(s == rb.n && !fsm_isend(f, s) && fsm_endid_count(f, s) == 0 && fsm_eager_output_count(f, s) == 0, "a new state is not blank"); }
	fsm_free(f); NO_LEAK("fsm_compact_states");
}
/* the two ways a state number can be given up: the last state moves into the hole, or all later ones move down */
static void without(struct ext *d, const struct ext *s, unsigned v, int down) {
	unsigned i, n = s->n; 
	x_init(d, n - 1);
#define M(i) (down ? (i) - ((i) > v) : (i) == n - 1 ? v : (i))
	if (s->hasstart && s->start != v) { d->hasstart = 1; d->start = M(s->start); }
	for (i = 0; i < n; i++) if (i != v) x_col(d, M(i), s->col[i]);
	for (i = 0; i < s->ne; i++) if (s->e[i].from != v && s->e[i].to != v) { if (s->e[i].eps) x_eps(d, M(s->e[i].from), M(s->e[i].to)); else x_edge(d, M(s->e[i].from), M(s->e[i].to), s->e[i].lo, s->e[i].hi); }
#undef M
}
void h_remove(void) {
	struct fsm *f = draw(&ra, sx_param("ids", 1)); unsigned k, v; fsm_state_t s;
	for (k = 0; k < sx_param("K", 2) && ra.n > 0; k++) {
		v = sx_choice("victim", ra.n);
		without(&rb, &ra, v, 0); without(&rc, &ra, v, 1);
		sx_assert(fsm_removestate(f, v), "fsm_removestate failed");
		of(&x, f);
		{ unsigned p = same(&rb, &x), q = same(&rc, &x); sx_assert(p | q, "fsm_removestate did not remove exactly that state and its transitions");
		ra = p ? rb : rc; }
	}
	sx_reach("checked"); usable(f, "after fsm_removestate the automaton cannot be used as another");
	sx_assert(fsm_addstate(f, &s), "fsm_addstate failed");
	sx_assert(s == ra.n && !fsm_isend(f, s), "a new state is not blank");
	fsm_setend(f, s, 1); sx_assert(fsm_endid_count(f, s) == 0 && fsm_eager_output_count(f, s) == 0, "a new state has the ids of a removed one");
	x_of(&x, f); for (k = 0; k < x.ne; k++) sx_assert(x.e[k].from != s && x.e[k].to != s, "a new state is not blank");
	fsm_free(f); NO_LEAK("fsm_removestate");
}
void h_merge_states(void) {
	struct fsm *f = draw(&ra, 0); unsigned i, a = sx_choice("a", ra.n), b = sx_choice("b", ra.n); fsm_state_t q = 99;
	sx_assume(a != b);
#define M(i) ((i) == b ? a : (i))
	x_init(&rb, ra.n); rb.hasstart = ra.hasstart; rb.start = M(ra.start);
	for (i = 0; i < ra.n; i++) x_col(&rb, M(i), ra.col[i]);
	for (i = 0; i < ra.ne; i++) if (ra.e[i].eps) { if (M(ra.e[i].from) != M(ra.e[i].to)) x_eps(&rb, M(ra.e[i].from), M(ra.e[i].to)); } else x_edge(&rb, M(ra.e[i].from), M(ra.e[i].to), ra.e[i].lo, ra.e[i].hi);
	sx_assert(fsm_mergestates(f, a, b, &q), "fsm_mergestates failed");
	sx_assert(fsm_countstates(f) == ra.n - 1, "fsm_mergestates: wrong number of states");
	sx_assert(q < ra.n - 1, "fsm_mergestates: the merged state does not exist");
	x_of(&x, f);
	x_lang(&rb, &x, "fsm_mergestates is not the quotient automaton");
	/* q really is the merged state: the languages from it agree too */
	if (ra.hasstart) { rb.start = a; x.start = q; x_lang(&rb, &x, "fsm_mergestates reports the wrong merged state"); }
	sx_reach("checked"); fsm_free(f); NO_LEAK("fsm_mergestates");
}
void h_subgraph(void) {
	struct fsm *f; struct fsm_subgraph sg; fsm_state_t xs, xs0, q; unsigned i, pre = sx_choice("pre", 2), post = sx_choice("post", 2), n, base;
	use_pal(PAL_A, 2); draw_aut(&A, sx_param("N", 2), sx_param("E", 2), NPAL, 1, 0); x_aut(&ra, &A);
	f = fsm_new(NULL); fsm_addstate_bulk(f, pre); fsm_subgraph_start(f, &sg); fsm_addstate_bulk(f, A.n); fsm_subgraph_stop(f, &sg); fsm_addstate_bulk(f, post);
	for (i = 0; i < A.n; i++) if (A.ends & bit(i)) fsm_setend(f, pre + i, 1);
	for (i = 0; i < A.ne; i++) add_label(f, pre + A.e[i].from, pre + A.e[i].to, A.e[i].lab);
	if (pre) { fsm_addedge_literal(f, 0, pre, 'p'); fsm_addedge_epsilon(f, pre, 0); }
	if (post) { fsm_addedge_literal(f, pre + A.n - 1, pre + A.n, 'q'); fsm_addedge_epsilon(f, pre + A.n, pre); }
	of(&y, f);
	xs = xs0 = pre + sx_choice("x", A.n); n = fsm_countstates(f);
	sx_assert(fsm_subgraph_duplicate(f, &sg, sx_choice("withx", 2) ? &xs : NULL, &q), "fsm_subgraph_duplicate failed");
	of(&x, f);
	sx_assert(x.n == n + A.n, "fsm_subgraph_duplicate: wrong number of states");
	base = q; sx_assert(base == n, "fsm_subgraph_duplicate: start of the copy");
	sx_assert(xs == xs0 || xs == base + (xs0 - pre), "fsm_subgraph_duplicate: state of interest");
	/* expected: everything as before, plus a copy of the inside */
	rb = y; rb.n = x.n; for (i = 0; i < A.n; i++) { rb.col[base + i] = 0; if (A.ends & bit(i)) x_end(&rb, base + i); }
	for (i = 0; i < A.ne; i++) { unsigned k, fr = base + A.e[i].from, to = base + A.e[i].to; if (A.e[i].lab == EPS) { if (eps_ok(fr, to)) x_eps(&rb, fr, to); } else for (k = 0; k < PAL[A.e[i].lab].n; k++) x_edge(&rb, fr, to, PAL[A.e[i].lab].r[k].lo, PAL[A.e[i].lab].r[k].hi); }
	sx_assert(same(&rb, &x), "fsm_subgraph_duplicate did not copy exactly the subgraph"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_subgraph_duplicate");
}
/* adding states: numbering, blankness, growth from every initial allocation */
void h_add(void) {
	unsigned al = sx_choice("alloc", 10), k, n = 0, i; struct fsm *f = al ? fsm_new_statealloc(NULL, al) : fsm_new(NULL); fsm_state_t s;
	sx_assert(f != NULL && fsm_countstates(f) == 0, "fsm_new");
	for (k = 0; k < sx_param("K", 3); k++) {
		unsigned op = sx_choice("op", 9);
		if (op == 0) { sx_assert(fsm_addstate(f, &s), "fsm_addstate failed"); sx_assert(s == n, "fsm_addstate numbering"); n++; }
		else { static const unsigned B[] = { 0, 1, 2, 3, 7, 64, 129, 300 }; sx_assert(fsm_addstate_bulk(f, B[op - 1]), "fsm_addstate_bulk failed"); n += B[op - 1]; }
		sx_assert(fsm_countstates(f) == n, "fsm_countstates is wrong");
		for (i = 0; i < n; i++) sx_assert(!fsm_isend(f, i) && !fsm_hasepsilons(f, i) && !fsm_hasoutgoing(f, i) && fsm_endid_count(f, i) == 0 && fsm_eager_output_count(f, i) == 0, "a new state is not blank");
		if (n > 2) fsm_removestate(f, 1), n--;
	}
	sx_assert(!fsm_getstart(f, &s), "a new automaton has a start state"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_addstate");
}
/* merging: both operands' states are there, disjoint, at the reported offsets, with their ids; no start */
void h_merge(void) {
	struct fsm *a = draw(&ra, sx_param("ids", 1)), *b, *q; struct fsm_combine_info ci; unsigned i, k; b = draw(&rb, sx_param("ids", 1));
	unsigned g = sx_choice("grow", 3); if (g) { struct fsm *t = g == 1 ? a : b; fsm_addstate_bulk(t, 200); for (k = fsm_countstates(t); k-- > (g == 1 ? ra.n : rb.n); ) fsm_removestate(t, k); }
	q = fsm_merge(a, b, &ci); sx_assert(q != NULL, "fsm_merge failed");
	of(&x, q);
	sx_assert(x.n == ra.n + rb.n, "fsm_merge: wrong number of states"); sx_assert(!x.hasstart, "fsm_merge left a start state");
	sx_assert((ci.base_a == 0 && ci.base_b == ra.n) || (ci.base_b == 0 && ci.base_a == rb.n), "fsm_merge: bases");
	x_init(&rc, x.n);
	for (k = 0; k < 2; k++) { const struct ext *r = k ? &rb : &ra; unsigned o = k ? ci.base_b : ci.base_a;
		for (i = 0; i < r->n; i++) x_col(&rc, o + i, r->col[i]);
		for (i = 0; i < r->ne; i++) if (r->e[i].eps) x_eps(&rc, o + r->e[i].from, o + r->e[i].to); else x_edge(&rc, o + r->e[i].from, o + r->e[i].to, r->e[i].lo, r->e[i].hi); }
	sx_assert(same(&rc, &x), "fsm_merge did not keep both automata"); sx_reach("checked");
	fsm_free(q); NO_LEAK("fsm_merge");
}
/* histories of language-preserving operations */
void h_history(void) {
	struct fsm *f = draw(&ra, 1), *g; unsigned k; xm co = x_coreach(&ra, ra.ends), i;
	for (i = 0; i < ra.n; i++) if (!(co >> i & 1)) sx_assume(!(ra.col[i] & ~1u)); /* outputs on dead states are dropped by trimming */
	for (k = 0; k < sx_param("K", 3); k++) switch (sx_choice("op", 9)) {
	case 0: g = fsm_clone(f); sx_assert(g != NULL, "clone"); fsm_free(f); f = g; break;
	case 1: sx_assert(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "trim"); break;
	case 2: { fsm_state_t st; int had = fsm_getstart(f, &st), r = fsm_remove_epsilons(f); if (had) sx_assert(r, "remove_epsilons"); break; }
	case 3: sx_assert(fsm_determinise(f), "determinise"); break;
	case 4: if (fsm_all(f, fsm_isdfa)) sx_assert(fsm_minimise(f), "minimise"); break;
	case 5: if (fsm_all(f, fsm_isdfa)) sx_assert(fsm_complete(f, fsm_isany), "complete"); break;
	case 6: sx_assert(fsm_shuffle(f, 5), "shuffle"); break;
	case 7: sx_assert(fsm_vacuum(f), "vacuum"); break;
	case 8: { fsm_state_t s; sx_assert(fsm_addstate(f, &s), "addstate"); break; }
	}
	of(&x, f);
	x_equiv(&ra, &x, "a sequence of language-preserving operations changed the language or the ids"); sx_reach("checked");
	fsm_free(f); NO_LEAK("a sequence of operations");
}
