#include "h.h"
#include <adt/idmap.h>
#include <adt/queue.h>
#include <adt/priq.h>
#include <adt/bitmap.h>
#include <adt/stateset.h>
#include <adt/internedstateset.h>
#include <adt/u64bitset.h>
#include <adt/set.h>
#include <adt/tupleset.h>

/* ---- id map */
static const fsm_state_t ST[] = { 0, 4, 7, 4294967294u, 1 }; static const unsigned VAL[] = { 0, 64, 63, 65, 128, 1, 200, 256 };
#define NST 5
#define NVAL 8
static unsigned im[NST]; static unsigned ign[NST], itotal, ilast, ist;
static void icb(fsm_state_t s, unsigned value, void *opaque) {
	unsigned i, j; (void) opaque;
	for (i = 0; i < NST && ST[i] != s; i++) ; for (j = 0; j < NVAL && VAL[j] != value; j++) ;
	sx_assert(i < NST && j < NVAL && (im[i] >> j & 1), "iteration over an id map gives a value never set");
	sx_assert(!(ign[i] >> j & 1), "iteration over an id map gives a value twice"); ign[i] |= 1u << j;
	if (ist == i) sx_assert(value > ilast, "the values of a state are not in ascending order"); ist = i; ilast = value; itotal++;
}
void h_idmap(void) {
	unsigned K = sx_param("K", 3), ns = sx_param("states", 3), nval = sx_param("values", 6), i, j, k, buf[NVAL], n; size_t wr; struct idmap *m = idmap_new(NULL); sx_assert(m != NULL, "idmap_new failed");
	for (k = 0; k < K; k++) { i = sx_choice("state", ns); j = sx_choice("value", nval); sx_assert(idmap_set(m, ST[i], VAL[j]), "idmap_set failed"); im[i] |= 1u << j; }
	for (i = 0; i < NST; i++) {
		for (n = j = 0; j < NVAL; j++) n += im[i] >> j & 1;
		sx_assert(idmap_get_value_count(m, ST[i]) == n, "idmap_get_value_count is wrong");
		wr = 99; sx_assert(idmap_get(m, ST[i], sizeof buf, buf, &wr) && wr == n, "idmap_get gives another number of values");
		for (j = 0; j < n; j++) { for (k = 0; k < NVAL && VAL[k] != buf[j]; k++) ; sx_assert(k < NVAL && (im[i] >> k & 1) && (j == 0 || buf[j] > buf[j - 1]), "idmap_get gives other values, or not in ascending order"); }
		if (n) sx_assert(!idmap_get(m, ST[i], (n - 1) * sizeof *buf, buf, &wr), "idmap_get writes past the space it was given");
		sx_assert(idmap_get(m, ST[i], n * sizeof *buf, buf, NULL), "idmap_get fails though there is space");
		memset(ign, 0, sizeof ign); itotal = 0; ist = 99; idmap_iter_for_state(m, ST[i], icb, NULL);
		sx_assert(itotal == n && ign[i] == im[i], "iteration over the values of a state misses one");
	}
	memset(ign, 0, sizeof ign); ist = 99; idmap_iter(m, icb, NULL); sx_assert(!memcmp(ign, im, sizeof im), "iteration over an id map misses a value");
	sx_reach("looked"); idmap_free(m); NO_LEAK("idmap");
}
/* many states, then an unconstrained one */
static unsigned many; static void ncb(fsm_state_t s, unsigned v, void *o) { (void) o; sx_assert(v == (s * 37) % 150, "a value belongs to another state"); many++; }
void h_idmap_many(void) {
	unsigned n = sx_choice("n", sx_param("M", 40)), i, step = sx_choice("step", 3), st[] = { 1, 4, 256 }, v = 0; struct idmap *m = idmap_new(NULL); fsm_state_t s; unsigned buf[4]; size_t wr;
	for (i = 0; i < n; i++) { s = i * st[step]; sx_assert(idmap_set(m, s, (s * 37) % 150), "idmap_set failed"); }
	s = sx_byte("state") * st[step]; sx_assert(idmap_get(m, s, sizeof buf, buf, &wr), "idmap_get failed");
	sx_assert(wr == (s < n * st[step]), "a state that was set is not found, or the reverse"); if (wr) sx_assert(buf[0] == (s * 37) % 150, "a state has the value of another");
	sx_assert(idmap_get_value_count(m, s) == wr, "idmap_get_value_count is wrong");
	if (sx_choice("add", 2)) { v = 140 + 20 * sx_choice("value", 3); sx_assert(idmap_set(m, s, v), "idmap_set failed"); sx_assert(idmap_get(m, s, sizeof buf, buf, &wr), "idmap_get failed"); for (i = 0; i < wr && buf[i] != v; i++) ; sx_assert(i < wr, "a value just set is not found"); }
	else { many = 0; idmap_iter(m, ncb, NULL); sx_assert(many == n, "iteration over an id map misses a state"); }
	sx_reach("looked"); idmap_free(m); NO_LEAK("idmap");
}

/* ---- queue */
void h_queue(void) {
	unsigned cap = sx_choice("capacity", sx_param("C", 4) + 1), K = sx_param("K", 8), i, rd = 0, wr = 0, r; fsm_state_t w[32], s; struct queue *q = queue_new(NULL, cap);
	if (cap == 0) { sx_assert(q == NULL, "a queue of capacity 0 is made"); sx_reach("none"); return; }
	sx_assert(q != NULL, "queue_new failed");
	for (i = 0; i < K; i++)
		if (sx_choice("op", 2)) { w[wr] = sx_byte("pushed"); r = queue_push(q, w[wr]); sx_assert(r == (wr - rd < cap), "queue_push fails with room left, or succeeds without"); wr += r; }
		else { s = 1000; r = queue_pop(q, &s); sx_assert(r == (rd < wr), "queue_pop is wrong about emptiness"); if (r) { sx_assert(s == w[rd], "the queue is not first-in first-out"); rd++; } }
	while (queue_pop(q, &s)) { sx_assert(rd < wr && s == w[rd], "the queue is not first-in first-out"); rd++; }
	sx_assert(rd == wr, "the queue lost an element"); sx_reach("drained"); queue_free(q); NO_LEAK("queue");
}

/* ---- priority queue */
void h_priq(void) {
	unsigned K = sx_param("K", 4), i, j, n = 0, c; unsigned cost[16], in[16]; struct priq *q = NULL, *p, *node[16], *done = NULL;
	for (i = 0; i < K; i++) switch (sx_choice("op", 3)) {
	case 0: cost[n] = sx_byte("cost"); p = priq_push(NULL, &q, n, cost[n]); sx_assert(p != NULL && p->state == n && p->cost == cost[n], "priq_push gives another element"); node[n] = p; in[n] = 1; n++; break;
	case 1: p = priq_pop(&q); for (j = c = 0; j < n; j++) c += in[j]; sx_assert((p != NULL) == (c > 0), "priq_pop is wrong about emptiness"); if (!p) break;
		sx_assert(p->state < n && in[p->state] && p == node[p->state] && p->cost == cost[p->state], "priq_pop gives an element that is not there");
		for (j = 0; j < n; j++) if (in[j]) sx_assert(cost[j] >= p->cost, "priq_pop gives an element that is not of least cost");
		in[p->state] = 0; priq_move(&done, p); sx_assert(priq_find(done, p->state) == p, "an element moved is not found"); break;
	case 2: if (!n) break; j = sx_choice("which", n); p = priq_find(q, j); sx_assert(p == (in[j] ? node[j] : NULL), "priq_find is wrong"); if (!p) break;
		cost[j] = sx_byte("cost"); p->cost = cost[j]; priq_update(&q, p, cost[j]); break;
	}
	for (j = 0; j < n; j++) sx_assert(priq_find(q, j) == (in[j] ? node[j] : NULL) && (in[j] || priq_find(done, j) == node[j]), "priq_find is wrong");
	for (c = 0; (p = priq_pop(&q)) != NULL; ) { sx_assert(p->cost >= c, "elements are not popped in order of cost"); c = p->cost; sx_assert(in[p->state], "an element is popped twice"); in[p->state] = 0; priq_free(NULL, p); }
	for (j = 0; j < n; j++) sx_assert(!in[j], "an element is lost");
	sx_reach("drained"); priq_free(NULL, done); NO_LEAK("priority queue");
}

/* ---- bitmap */
static const unsigned char BI[] = { 64, 0, 63, 255, 127, 'a' };
static struct bm ba, bb; static uint64_t ma[4], mb[4];
static void blook(const struct bm *b, const uint64_t *m) {
	unsigned i, n = 0; int v; static const int from[] = { -1, 0, 62, 63, 64, 254, 255 }; struct bm c = *b;
	for (i = 0; i < 256; i++) { unsigned in = m[i / 64] >> (i & 63) & 1; n += in; sx_assert(bm_get(b, i) == (int) in, "bm_get is wrong"); }
	sx_assert(bm_count(b) == n, "bm_count is wrong"); sx_assert(!!bm_any(b) == (n > 0), "bm_any is wrong");
	for (i = 0; i < sizeof from / sizeof *from; i++) for (v = 0; v < 2; v++) { unsigned k; for (k = from[i] + 1; k < 256 && (int) (m[k / 64] >> (k & 63) & 1) != v; k++) ; sx_assert(bm_next(b, from[i], v) == k, "bm_next is wrong"); }
	for (i = 0; i < 4; i++) { uint64_t *w = bm_nth_word(&c, i); sx_assert(w && *w == m[i], "bm_nth_word is wrong"); }
	sx_assert(bm_nth_word(&c, 4 + sx_choice("word", 2)) == NULL, "bm_nth_word gives a word that holds no byte");
	sx_reach("looked");
}
void h_bitmap(void) {
	unsigned K = sx_param("K", 3), i, k; memset(&ba, 255, sizeof ba); bm_clear(&ba); bm_clear(&bb);
	for (k = 0; k < K; k++) switch (sx_choice("op", 9)) {
	case 0: i = BI[sx_choice("byte", 6)]; bm_set(&ba, i); ma[i / 64] |= (uint64_t) 1 << (i & 63); break;
	case 1: i = BI[sx_choice("byte", 6)]; bm_unset(&ba, i); ma[i / 64] &= ~((uint64_t) 1 << (i & 63)); break;
	case 2: bm_invert(&ba); for (i = 0; i < 4; i++) ma[i] = ~ma[i]; break;
	case 3: { struct bm t = ba; ba = bb; bb = t; for (i = 0; i < 4; i++) { uint64_t u = ma[i]; ma[i] = mb[i]; mb[i] = u; } } break;
	case 4: bm_copy(&bb, &ba); memcpy(mb, ma, sizeof mb); break;
	case 5: bm_union(&ba, &bb); for (i = 0; i < 4; i++) ma[i] |= mb[i]; break;
	case 6: bm_intersect(&ba, &bb); for (i = 0; i < 4; i++) ma[i] &= mb[i]; break;
	case 7: bm_clear(&ba); memset(ma, 0, sizeof ma); break;
	case 8: i = sx_choice("word", 4); *bm_nth_word(&ba, i) = ma[i] = 0xf000000000000001; break;
	}
	blook(&ba, ma); blook(&bb, mb);
}
/* unconstrained bytes */
void h_bitmap_byte(void) {
	unsigned y = sx_choice("other", 256), ask = sx_choice("ask", 2), x = ask ? sx_choice("set", 256) : sx_byte("set"), q = sx_byte("asked"), e, nx; bm_clear(&ba); bm_set(&ba, x);
	switch (sx_choice("op", 4)) {
	case 0: bm_set(&ba, y); e = (q == x) | (q == y); nx = 1 + (x != y); break;
	case 1: bm_unset(&ba, y); e = (q == x) & (q != y); nx = x != y; break;
	case 2: bm_invert(&ba); bm_set(&ba, y); e = (q != x) | (q == y); nx = 255 + (x == y); break;
	default: bm_clear(&bb); bm_set(&bb, y); bm_union(&ba, &bb); e = (q == x) | (q == y); nx = 1 + (x != y); break;
	}
	if (!ask) sx_assert(bm_get(&ba, q) == (int) e, "bm_get is wrong"); else sx_assert(bm_count(&ba) == nx, "bm_count is wrong"); sx_reach("looked");
}
/* what is printed for a set of bytes denotes that set */
static int hexc(FILE *f, const struct fsm_options *o, char c) { (void) o; return fprintf(f, "\\%02x", (unsigned char) c); }
static unsigned rd(const char **p) { unsigned i, r = 0; sx_assert(**p == '\\', "the text of a set of bytes cannot be read"); (*p)++; for (i = 0; i < 2; i++, (*p)++) r = r * 16 + (**p <= '9' ? **p - '0' : **p - 'a' + 10); return r; }
static const unsigned char EDGE[] = { 0, '/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', 254, 255, '5', 'c', 127 };
static void printed(int lim) {
	FILE *f = sx_mem_writer(); const char *s, *e; size_t n; int r, inv = 0; uint64_t g[4] = { 0, 0, 0, 0 }; unsigned i, lo, hi;
	for (i = 0; i < 256; i++) if (ma[i / 64] >> (i & 63) & 1) bm_set(&ba, i);
	r = bm_print(f, NULL, &ba, 0, hexc); s = sx_mem_data(f, &n); sx_assert(r >= 0, "bm_print failed"); (void) lim; e = s + n;
	if (n == 3 && !strcmp(s, "/./")) { for (i = 0; i < 4; i++) g[i] = ~(uint64_t) 0; goto done; }
	if (*s == '[') { s++; e--; sx_assert(*e == ']', "the text of a set of bytes does not end"); if (*s == '^') { inv = 1; s++; } }
	while (s < e) { lo = hi = rd(&s); if (*s == '-') { s++; hi = rd(&s); } for (i = lo; i <= hi; i++) { sx_assert(!(g[i / 64] >> (i & 63) & 1), "a byte is printed twice"); g[i / 64] |= (uint64_t) 1 << (i & 63); } }
	if (inv) for (i = 0; i < 4; i++) g[i] = ~g[i];
done:	for (i = 0; i < 4; i++) sx_assert(g[i] == ma[i], "the text printed for a set of bytes denotes another set");
	sx_reach("printed"); sx_mem_close(f);
}
void h_print(void) {
	unsigned n = 1 + sx_choice("ranges", sx_param("R", 2)), i, j, k, a, b;
	for (i = 0; i < n; i++) { a = EDGE[sx_choice("from", sizeof EDGE)]; b = EDGE[sx_choice("to", sizeof EDGE)]; for (j = 0; j < 256; j++) if (j >= a && j <= b) ma[j / 64] ^= (uint64_t) 1 << (j & 63); }
	if (sx_choice("invert", 2)) for (k = 0; k < 4; k++) ma[k] = ~ma[k];
	printed(0);
}
void h_print_range(void) { unsigned j, a = sx_choice("from", 256), w = sx_choice("width", sx_param("W", 64)); for (j = 0; j < 256; j++) if (j >= a && j <= a + w) ma[j / 64] |= (uint64_t) 1 << (j & 63); if (sx_choice("invert", 2)) for (j = 0; j < 4; j++) ma[j] = ~ma[j]; printed(0); }

/* ---- interned sets of states */
static const fsm_state_t IP[] = { 0, 1, 2, 4294967294u, 70000 };
static unsigned mk(fsm_state_t *a, unsigned m) { static const unsigned o[] = { 0, 1, 2, 4, 3 }; unsigned i, n = 0; for (i = 0; i < 5; i++) if (m >> o[i] & 1) a[n++] = IP[o[i]]; return n; }
void h_interned(void) {
	unsigned K = sx_param("K", 3), P = sx_param("P", 4), i, j, n, mm[8]; interned_state_set_id id[8]; fsm_state_t a[5], s; struct state_iter it; struct state_set *ss; struct interned_state_set_pool *p = interned_state_set_pool_alloc(NULL); sx_assert(p != NULL, "interned_state_set_pool_alloc failed");
	for (i = 0; i < K; i++) { mm[i] = 1 + sx_choice("set", (1u << P) - 1); n = mk(a, mm[i]); sx_assert(interned_state_set_intern_set(p, n, a, &id[i]), "interned_state_set_intern_set failed");
		for (j = 0; j < i; j++) sx_assert((id[i] == id[j]) == (mm[i] == mm[j]), "equal sets have different handles, or different sets the same");
		if (sx_choice("look", 2)) (void) interned_state_set_get_state_set(p, id[i]); }
	for (i = 0; i < K; i++) { n = mk(a, mm[i]); ss = interned_state_set_get_state_set(p, id[i]); sx_assert(state_set_count(ss) == n, "a handle gives back another set"); j = 0;
		for (state_set_reset(ss, &it); state_set_next(&it, &s); j++) sx_assert(j < n && s == a[j], "a handle gives back another set"); sx_assert(j == n, "a handle gives back another set"); sx_assert(interned_state_set_get_state_set(p, id[i]) == ss, "a handle gives two sets"); }
	sx_reach("looked"); interned_state_set_pool_free(p); NO_LEAK("interned sets");
}
/* so many sets that every table grows; then one with an unconstrained state */
void h_interned_many(void) {
	unsigned n = 20 * sx_choice("n", sx_param("M", 12)), i, x; interned_state_set_id id, ids[400]; fsm_state_t a[5]; struct interned_state_set_pool *p = interned_state_set_pool_alloc(NULL); struct state_set *ss;
	for (i = 0; i < n; i++) { a[0] = i % 20; a[1] = 20 + i / 20; a[2] = 300; sx_assert(interned_state_set_intern_set(p, 3, a, &ids[i]), "interned_state_set_intern_set failed"); }
	for (i = 0; i < n; i++) { a[0] = i % 20; a[1] = 20 + i / 20; a[2] = 300; sx_assert(interned_state_set_intern_set(p, 3, a, &id) && id == ids[i], "a set interned again has another handle"); if (i % 7 == 0) { ss = interned_state_set_get_state_set(p, id); sx_assert(state_set_count(ss) == 3 && state_set_contains(ss, a[0]) && state_set_contains(ss, a[1]) && state_set_contains(ss, 300), "a handle gives back another set"); } }
	x = sx_byte("state"); sx_assume(x < 20); a[0] = x; a[1] = 25; a[2] = 300; sx_assert(interned_state_set_intern_set(p, 3, a, &id), "interned_state_set_intern_set failed");
	if (n > 100) sx_assert(id == ids[100 + sx_fork(x)], "a set interned again has another handle"); else for (i = 0; i < n; i++) sx_assert(id != ids[i], "different sets have the same handle");
	sx_reach("looked"); interned_state_set_pool_free(p); NO_LEAK("interned sets");
}

/* ---- the generic set, as used for tuples */
struct pair { unsigned a, b; };
static int cmp(const void *x, const void *y) { const struct pair *p = * (struct pair * const *) x, *q = * (struct pair * const *) y; if (p->a != q->a) return p->a < q->a ? -1 : 1; return (p->b > q->b) - (p->b < q->b); }
void h_tuples(void) {
	static struct pair t[40], q; unsigned n = sx_choice("n", sx_param("M", 20)), order = sx_choice("order", 3), i, x; void *r; struct tuple_set *s = tuple_set_create(NULL, cmp); sx_assert(s != NULL, "tuple_set_create failed");
	for (i = 0; i < n; i++) { x = order == 0 ? i : order == 1 ? n - 1 - i : (i & 1 ? n - 1 - i / 2 : i / 2); t[x].a = x / 3; t[x].b = 2 * (x % 3); sx_assert(tuple_set_add(s, (void *) &t[x]) == (void *) &t[x], "tuple_set_add gives another element"); }
	q.a = sx_choice("a", 8); q.b = sx_byte("b"); x = 3 * q.a + q.b / 2; r = tuple_set_contains(s, (void *) &q);
	if (q.b < 6 && !(q.b & 1) && x < n) sx_assert(r == &t[x], "tuple_set_contains misses an element"); else sx_assert(r == NULL, "tuple_set_contains finds what is not there");
	if (sx_choice("add", 2)) { sx_assert(tuple_set_add(s, (void *) &q) != NULL, "tuple_set_add failed"); sx_assert(tuple_set_contains(s, (void *) &q) != NULL, "an element just added is not found"); for (i = 0; i < n; i++) sx_assert(tuple_set_contains(s, (void *) &t[i]) == (void *) &t[i], "an element is lost"); }
	sx_reach("looked"); tuple_set_free(s); NO_LEAK("tuple set");
}
