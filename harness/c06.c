#include "h.h"
/* End ids.  Id values have unconstrained first and last bytes; the model of a state is the list of ids set on it. */
#define MS 6
struct model { unsigned n; fsm_end_id_t id[24]; };
static struct model M[512];
static fsm_end_id_t sym_id(const char *n) { fsm_end_id_t v = (fsm_end_id_t) sx_byte(n) << 24; return sx_param("idbytes", 2) > 1 ? v | sx_byte(n) : v; }
static void agree(const struct fsm *f, unsigned s, const struct model *m, const char *msg) {
	fsm_end_id_t b[32]; size_t n = fsm_endid_count(f, s), i, j; unsigned ok = 1;
	sx_assert(n <= m->n, "more end ids reported than were set");
	sx_assert(m->n == 0 || n > 0, "end ids lost");
	sx_assert(fsm_endid_get(f, s, n, b), "fsm_endid_get failed with a large enough buffer");
	if (n) { fsm_end_id_t t[32]; sx_assert(!fsm_endid_get(f, s, n - 1, t), "fsm_endid_get accepted a buffer that is too small"); }
	for (i = 1; i < n; i++) ok &= b[i - 1] < b[i];
	sx_assert(ok, "end ids not sorted or duplicated");
	for (i = 0; i < n; i++) { unsigned in = 0; for (j = 0; j < m->n; j++) in |= b[i] == m->id[j]; ok &= in; }
	for (j = 0; j < m->n; j++) { unsigned in = 0; for (i = 0; i < n; i++) in |= b[i] == m->id[j]; ok &= in; }
	sx_assert(ok, msg);
}
static fsm_end_id_t map_xor;
static int remap_fold(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *nw, void *o) { /* id -> id & 1 */
	size_t i; (void) s; (void) o; for (i = 0; i < n; i++) ids[i] &= 1; *nw = n; return 1;
}
static int remap_xor(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *nw, void *o) {
	size_t i; (void) s; for (i = 0; i < n; i++) ids[i] ^= *(fsm_end_id_t *) o; *nw = n; return 1;
}
static int remap_drop(fsm_state_t s, size_t n, fsm_end_id_t *ids, size_t *nw, void *o) { (void) s; (void) o; (void) ids; *nw = n > 1 ? n - 1 : n; return 1; }
/* histories of id operations on a few accepting states */
void h_ops(void) {
	struct fsm *f = fsm_new(NULL), *g; unsigned K = sx_param("K", 3), N = sx_param("N", 2), k, i, j, nid = sx_param("ids", 2); fsm_end_id_t id[4];
	memset(M, 0, sizeof M);
	fsm_addstate_bulk(f, N); fsm_setstart(f, 0); for (i = 0; i < N; i++) { fsm_setend(f, i, 1); if (i) fsm_addedge_literal(f, i - 1, i, 'a'); }
	for (i = 0; i < nid; i++) id[i] = sym_id("id");
	id[nid] = 4294967295u; id[nid + 1] = 0;
	for (k = 0; k < K; k++) switch (sx_choice("op", k == 0 ? 1 : 6)) {
	case 0: i = sx_choice("state", N); j = sx_choice("id", nid + 2); sx_assert(fsm_endid_set(f, i, id[j]), "fsm_endid_set failed"); M[i].id[M[i].n++] = id[j]; break;
	case 1: j = sx_choice("id", nid + 2); sx_assert(fsm_setendid(f, id[j]), "fsm_setendid failed"); for (i = 0; i < N; i++) M[i].id[M[i].n++] = id[j]; break;
	case 2: { int d = sx_choice("delta", 2) ? -1 : 1; fsm_increndids(f, d); for (i = 0; i < N; i++) for (j = 0; j < M[i].n; j++) M[i].id[j] += d; break; }
	case 3: map_xor = 0x80000001u; sx_assert(fsm_mapendids(f, remap_xor, &map_xor), "fsm_mapendids failed"); for (i = 0; i < N; i++) for (j = 0; j < M[i].n; j++) M[i].id[j] ^= map_xor; break;
	case 4: sx_assert(fsm_mapendids(f, remap_fold, NULL), "fsm_mapendids failed"); for (i = 0; i < N; i++) for (j = 0; j < M[i].n; j++) M[i].id[j] &= 1; break;
	case 5: g = fsm_clone(f); sx_assert(g != NULL, "fsm_clone failed"); fsm_free(f); f = g; break;
	}
	for (i = 0; i < N; i++) agree(f, i, &M[i], "the end ids of a state are not those that were set");
	sx_reach("checked");
	fsm_free(f); NO_LEAK("end ids");
}
/* a remap that removes the largest id */
void h_drop(void) {
	struct fsm *f = fsm_new(NULL); unsigned i, k = 1 + sx_choice("n", sx_param("K", 3)); fsm_end_id_t b[8], id; size_t n, m;
	fsm_addstate_bulk(f, 2); fsm_setstart(f, 0); fsm_setend(f, 1, 1);
	for (i = 0; i < k; i++) fsm_endid_set(f, 1, sym_id("id"));
	n = fsm_endid_count(f, 1); sx_assert(fsm_endid_get(f, 1, n, b), "fsm_endid_get failed");
	sx_assert(fsm_mapendids(f, remap_drop, NULL), "fsm_mapendids failed");
	m = fsm_endid_count(f, 1); sx_assert(m == (n > 1 ? n - 1 : n), "fsm_mapendids: wrong number of ids left"); sx_reach("checked");
	fsm_free(f); NO_LEAK("fsm_mapendids"); (void) id;
}
/* many ids on one state, in an order that depends on unconstrained values, so that the list grows */
void h_many_ids(void) {
	struct fsm *f = fsm_new(NULL); unsigned i, n = sx_param("N", 20), at = sx_choice("at", n), step = 1 + sx_choice("step", 3) * 2; fsm_end_id_t x = sx_byte("id") * 0x04000001u;
	memset(M, 0, sizeof M);
	fsm_addstate_bulk(f, 1); fsm_setstart(f, 0); fsm_setend(f, 0, 1);
	for (i = 0; i < n; i++) { fsm_end_id_t v = (i * step * 7) % 64 * 0x04000001u; if (i == at) { fsm_endid_set(f, 0, x); M[0].id[M[0].n++] = x; } fsm_endid_set(f, 0, v); M[0].id[M[0].n++] = v; }
	agree(f, 0, &M[0], "the end ids of a state are not those that were set"); sx_reach("checked");
	fsm_free(f); NO_LEAK("end ids");
}
/* many states with ids: the table grows; then states are removed, trimmed away or cloned */
void h_many_states(void) {
	struct fsm *f = fsm_new(NULL), *g; unsigned i, n = 2 + sx_choice("n", sx_param("N", 150)), op = sx_choice("op", 6), c, at; fsm_end_id_t x = sym_id("id");
	memset(M, 0, sizeof M);
	fsm_addstate_bulk(f, n); fsm_setstart(f, 0); fsm_setend(f, n - 1, 1);
	for (i = 0; i + 1 < n; i++) fsm_addedge_literal(f, i, i + 1, 'a');
	at = n / 3;
	for (i = 0; i < n; i++) { fsm_setend(f, i, 1); fsm_endid_set(f, i, i); M[i].id[M[i].n++] = i; if (i == at || i == n - 1) { fsm_endid_set(f, i, x); M[i].id[M[i].n++] = x; } }
	if (op == 0) { g = fsm_clone(f); fsm_free(f); f = g; }
	if (op == 1 && n > 2) { fsm_removestate(f, at); M[at] = M[n - 1]; n--; }
	if (op == 2) sx_assert(fsm_determinise(f), "fsm_determinise failed");
	if (op == 3) sx_assert(fsm_minimise(f), "fsm_minimise failed");
	if (op == 4) { for (c = 0; c < 10; c++) { fsm_state_t s; fsm_addstate(f, &s); fsm_setend(f, s, 1); fsm_endid_set(f, s, 77); } sx_assert(fsm_trim(f, FSM_TRIM_START_REACHABLE, NULL) >= 0, "fsm_trim failed"); }
	if (op == 5) { /* drop the last states by making a middle one the end of the road */
		g = fsm_new(NULL); fsm_addstate_bulk(g, 3); fsm_setstart(g, 0); fsm_addedge_literal(g, 0, 1, 'q'); fsm_addedge_literal(g, 1, 2, 'q'); fsm_setend(g, 2, 1); fsm_endid_set(g, 2, 5);
		f = fsm_union(f, g, NULL); sx_assert(f != NULL && fsm_determinise(f), "union failed");
	}
	if (op == 1) { for (i = 0; i < n; i++) agree(f, i, &M[i], "end ids lost or mixed up"); }
	else { /* walk along the chain */
		fsm_state_t s; static unsigned char w[512]; struct wbuf b; 
		for (i = 0; i < n; i++) { memset(w, 'a', i); b.p = w; b.n = i; b.i = 0; if (n > 40 && i % 13 != 0 && i != at && i != n - 1) continue; sx_assert(fsm_exec(f, wgetc, &b, &s, NULL) == 1, "a string is no longer accepted"); agree(f, s, &M[i], "end ids lost or mixed up"); }
	}
	sx_reach("checked");
	fsm_free(f); NO_LEAK("end ids");
}
/* automata with ids, unioned, determinised, minimised: the accepting state has exactly the ids of the members that match */
static fsm_end_id_t IDS[8];
static uint32_t w_or3(const uint32_t *c) { return c[0] | c[1] | c[2]; }
void h_union(void) {
	static struct ext r[3], x; struct fsm *f[3], *q; const struct ext *xs[4]; struct aut a; unsigned i, j, n = sx_param("members", 2), how;
	use_pal(PAL_A, sx_param("labels", 2));
	for (i = 0; i < 3; i++) x_init(&r[i], 1);
	IDS[0] = 0; IDS[1] = 4294967295u; IDS[2] = 5;
	for (i = 0; i < n; i++) {
		draw_aut(&a, sx_param("N", 2), sx_param("E", 2), NPAL, sx_param("eps", 1), 0); x_aut(&r[i], &a); f[i] = build(&a, NULL);
		for (j = 0; j < a.n; j++) if (a.ends & bit(j)) {
			unsigned k = sx_param("idchoice", 1) ? sx_choice("ids", 3) : 0; /* own id, a shared id, none */
			if (k == 0) { fsm_endid_set(f[i], j, IDS[i]); x_col(&r[i], j, 2u << i); }
			if (k == 1) { fsm_endid_set(f[i], j, IDS[2]); x_col(&r[i], j, 2u << 2); fsm_endid_set(f[i], j, IDS[i]); x_col(&r[i], j, 2u << i); }
		}
	}
	how = sx_choice("how", 2);
	if (how == 0) { q = f[0]; for (i = 1; i < n; i++) q = fsm_union(q, f[i], NULL); }
	else q = fsm_union_array(n, f, NULL);
	sx_assert(q != NULL, "union failed");
	for (i = 0; i < 3; i++) xs[i] = &r[i]; xs[3] = &x;
	sx_assert(fsm_determinise(q), "fsm_determinise failed");
	x_of(&x, q); x_ids(&x, q, IDS, 3, NULL, 0);
	x_rel(xs, 4, w_or3, ~0u, "ids lost or invented by union and determinisation");
	sx_assert(fsm_minimise(q), "fsm_minimise failed");
	x_of(&x, q); x_ids(&x, q, IDS, 3, NULL, 0);
	x_rel(xs, 4, w_or3, ~0u, "ids lost or invented by minimisation"); sx_reach("checked");
	fsm_free(q); NO_LEAK("union");
}
/* other language-preserving operations on automata with ids */
void h_keep(void) {
	static struct ext r, x; struct aut a; struct fsm *f, *g; unsigned j;
	use_pal(PAL_A, sx_param("labels", 1));
	draw_aut(&a, sx_param("N", 3), sx_param("E", 2), NPAL, 1, 0); x_aut(&r, &a); f = build(&a, NULL);
	IDS[0] = 0; IDS[1] = 4294967295u;
	for (j = 0; j < a.n; j++) if (a.ends & bit(j)) { unsigned k = sx_choice("ids", 4); if (k & 1) { fsm_endid_set(f, j, IDS[0]); x_col(&r, j, 2); } if (k & 2) { fsm_endid_set(f, j, IDS[1]); x_col(&r, j, 4); } }
	switch (sx_choice("op", 6)) {
	case 0: sx_assert(fsm_remove_epsilons(f), "fsm_remove_epsilons failed"); break;
	case 1: sx_assert(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL) >= 0, "fsm_trim failed"); break;
	case 2: g = fsm_clone(f); fsm_free(f); f = g; break;
	case 3: sx_assert(fsm_shuffle(f, 3), "fsm_shuffle failed"); break;
	case 4: sx_assert(fsm_vacuum(f), "fsm_vacuum failed"); break;
	case 5: g = fsm_new(NULL); fsm_addstate_bulk(g, 1); fsm_setstart(g, 0); fsm_setend(g, 0, 1); f = fsm_concat(g, f, NULL); if (!f) { sx_reach("concat-refused"); return; } break;
	}
	x_of(&x, f); x_ids(&x, f, IDS, 2, NULL, 0);
	x_equiv(&r, &x, "end ids changed"); sx_reach("checked");
	fsm_free(f); NO_LEAK("operation");
}
