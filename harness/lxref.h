/* a reading of lx specifications of its own: what the tokens of an input are */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define RMAXS 64
#define RMAXC 40
/* bytes are split into classes; every bit set below is over classes */
static unsigned char rcls[256]; static unsigned rnc; static unsigned char rrep[RMAXC];
struct rset { uint64_t b[4]; };
static void s_add(struct rset *s, unsigned c) { s->b[c >> 6] |= (uint64_t) 1 << (c & 63); }
static int s_has(const struct rset *s, unsigned c) { return s->b[c >> 6] >> (c & 63) & 1; }
enum { E_SET, E_EPS, E_CAT, E_ALT, E_STAR, E_NOT, E_AND, E_SUB, E_NULL };
struct rex { int op, a, b; struct rset s; };
static struct rex rx[900]; static int nrx;
static int e_new(int op, int a, int b) { struct rex *e; if (nrx >= 900) abort(); e = &rx[nrx]; memset(e, 0, sizeof *e); e->op = op; e->a = a; e->b = b; return nrx++; }
static int e_byte(unsigned c) { int e = e_new(E_SET, 0, 0); s_add(&rx[e].s, c); return e; }
static int e_rev(int e) { int a, b; switch (rx[e].op) { case E_SET: case E_EPS: case E_NULL: return e; case E_CAT: a = e_rev(rx[e].a); b = e_rev(rx[e].b); return e_new(E_CAT, b, a); case E_STAR: case E_NOT: a = e_rev(rx[e].a); return e_new(rx[e].op, a, 0); default: a = e_rev(rx[e].a); b = e_rev(rx[e].b); return e_new(rx[e].op, a, b); } }
static int e_opt(int e) { return e_new(E_ALT, e, e_new(E_EPS, 0, 0)); }
static int e_plus(int e) { return e_new(E_CAT, e, e_new(E_STAR, e, 0)); }
/* complete automata over classes */
struct rdfa { unsigned n; unsigned char t[RMAXS][RMAXC], acc[RMAXS], co[RMAXS]; };
struct rzone; struct rmap { int e, tok; int to; struct rdfa *d; };
static struct rzone { int parent, nm, implicit; struct rmap m[16]; struct { char n[16]; int e; } v[8]; int nv; } rz[12]; static int nrz;
static char rtok[32][32]; static int nrtok;
/* parser */
static const char *rp;
static void ws(void) { for (;;) { while (*rp == ' ' || *rp == '\n' || *rp == '\t' || *rp == '\r') rp++; if (*rp != '#') return; while (*rp && *rp != '\n') rp++; } }
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static unsigned esc(const char **q) { /* after the backslash */
	unsigned v = 0; const char *s = *q;
	switch (*s) { case 'n': *q = s + 1; return '\n'; case 'r': *q = s + 1; return '\r'; case 't': *q = s + 1; return '\t'; case 'f': *q = s + 1; return '\f'; case 'v': *q = s + 1; return '\v';
	case 'x': for (s++; hexd(*s) >= 0; s++) v = v * 16 + hexd(*s); *q = s; return v; }
	if (*s >= '0' && *s <= '7') { for (; *s >= '0' && *s <= '7'; s++) v = v * 8 + *s - '0'; *q = s; return v; }
	*q = s + 1; return (unsigned char) *s;
}
static int rxe(int fold);
static int rx_atom(int fold) {
	int e; unsigned i;
	if (*rp == '(') { rp++; e = rxe(fold); rp++; return e; }
	e = e_new(E_SET, 0, 0);
	if (*rp == '.') { rp++; for (i = 0; i < 256; i++) s_add(&rx[e].s, i); return e; }
	if (*rp == '[') { int neg = 0; struct rset s; memset(&s, 0, sizeof s); rp++; if (*rp == '^') { neg = 1; rp++; }
		while (*rp != ']') { unsigned lo, hi; if (*rp == '\\') { rp++; lo = esc(&rp); } else lo = (unsigned char) *rp++; hi = lo; if (*rp == '-') { rp++; if (*rp == '\\') { rp++; hi = esc(&rp); } else hi = (unsigned char) *rp++; } for (i = lo; i <= hi; i++) s_add(&s, i); }
		rp++; for (i = 0; i < 256; i++) if (s_has(&s, i) != neg) s_add(&rx[e].s, i); }
	else { unsigned c; if (*rp == '\\') { rp++; c = esc(&rp); } else c = (unsigned char) *rp++; s_add(&rx[e].s, c); }
	if (fold) for (i = 'a'; i <= 'z'; i++) { if (s_has(&rx[e].s, i)) s_add(&rx[e].s, i - 32); else if (s_has(&rx[e].s, i - 32)) s_add(&rx[e].s, i); }
	return e;
}
static int rx_piece(int fold) {
	int e = rx_atom(fold);
	for (;;) {
		if (*rp == '*') { rp++; e = e_new(E_STAR, e, 0); } else if (*rp == '+') { rp++; e = e_plus(e); } else if (*rp == '?') { rp++; e = e_opt(e); }
		else if (*rp == '{') { int m = rp[1] - '0', n = rp[3] - '0', i, r = e_new(E_EPS, 0, 0); rp += 5; for (i = 0; i < n; i++) r = e_new(E_CAT, r, i < m ? e : e_opt(e)); e = r; }
		else return e;
	}
}
static int rxe(int fold) {
	int e = e_new(E_EPS, 0, 0), alt = -1;
	for (;;) {
		if (*rp == '|') { rp++; alt = alt < 0 ? e : e_new(E_ALT, alt, e); e = e_new(E_EPS, 0, 0); }
		else if (*rp == '/' || *rp == ')' || !*rp) return alt < 0 ? e : e_new(E_ALT, alt, e);
		else { int q = rx_piece(fold); e = e_new(E_CAT, e, q); }
	}
}
static int x_expr(int z);
static int ident(char *o) { int k = 0; while ((*rp >= 'a' && *rp <= 'z') || (*rp >= 'A' && *rp <= 'Z') || (*rp >= '0' && *rp <= '9') || *rp == '_') o[k++] = *rp++; o[k] = 0; return k; }
static int tokof(const char *s) { int i; for (i = 0; i < nrtok; i++) if (!strcmp(rtok[i], s)) return i; strcpy(rtok[nrtok], s); return nrtok++; }
static int x_prim(int z) {
	int e, i, k; char id[32]; ws();
	if (*rp == '(') { rp++; e = x_expr(z); ws(); rp++; return e; }
	if (*rp == '\'') { e = e_new(E_EPS, 0, 0); for (rp++; *rp != '\''; rp++) { k = e_byte((unsigned char) *rp); e = e_new(E_CAT, e, k); } rp++; return e; }
	if (*rp == '"') { e = e_new(E_EPS, 0, 0); rp++; while (*rp != '"') { unsigned c; if (*rp == '\\') { rp++; c = esc(&rp); } else c = (unsigned char) *rp++; k = e_byte(c); e = e_new(E_CAT, e, k); } rp++; return e; }
	if (*rp == '/') { const char *q; int fold; for (q = rp + 1; *q != '/'; q++) ; fold = q[1] == 'i'; rp++; e = rxe(fold); rp++; if (fold) rp++; return e; }
	if (*rp == '$') { rp++; ident(id); e = e_new(E_NULL, 0, 0); k = tokof(id); for (i = 0; i < rz[z].nm; i++) if (rz[z].m[i].tok == k) e = e_new(E_ALT, e, rz[z].m[i].e); return e; }
	ident(id); for (; z >= 0; z = rz[z].parent) for (i = 0; i < rz[z].nv; i++) if (!strcmp(rz[z].v[i].n, id)) return rz[z].v[i].e;
	abort();
}
static int x_post(int z) { int e = x_prim(z); for (;;) { ws(); if (*rp == '*') { rp++; e = e_new(E_STAR, e, 0); } else if (*rp == '+') { rp++; e = e_plus(e); } else if (*rp == '?') { rp++; e = e_opt(e); } else return e; } }
static int x_pre(int z) { int e; ws(); if (*rp == '~') { rp++; e = x_pre(z); return e_new(E_NOT, e, 0); } if (*rp == '!') { rp++; return e_rev(x_pre(z)); } if (*rp == '^') { rp++; return x_pre(z); } return x_post(z); }
static int starts(void) { ws(); return *rp && strchr("('\"/$~!^", *rp) ? 1 : (*rp >= 'a' && *rp <= 'z'); }
static int x_cat(int z) { int e = x_pre(z); if (starts()) { int b = x_cat(z); return e_new(E_CAT, e, b); } return e; }
static int x_sub(int z) { int e = x_cat(z); ws(); if (*rp == '-' && rp[1] != '>') { int b; rp++; b = x_sub(z); return e_new(E_SUB, e, b); } return e; }
static int x_and(int z) { int e = x_sub(z); for (;;) { ws(); if (*rp != '&') return e; rp++; { int b = x_sub(z); e = e_new(E_AND, e, b); } } }
static int x_expr(int z) { int e = x_and(z); for (;;) { ws(); if (*rp != '|') return e; rp++; { int b = x_and(z); e = e_new(E_ALT, e, b); } } }
static void add(int z, int e, int tok, int to) { struct rmap *m = &rz[z].m[rz[z].nm++]; m->e = e; m->tok = tok; m->to = to; m->d = NULL; }
static int newzone(int parent) { memset(&rz[nrz], 0, sizeof rz[0]); rz[nrz].parent = parent; return nrz++; }
static void tmap(int z, int *e, int *t) { char id[32]; *e = x_expr(z); ws(); *t = -1; if (rp[0] == '-' && rp[1] == '>') { rp += 2; ws(); rp++; ident(id); *t = tokof(id); } ws(); }
static int less(int e, int exit) { return exit < 0 ? e : e_new(E_SUB, e, exit); }
static void things(int z, int exit) {
	for (;;) {
		const char *save; char id[32]; int e, t, child, ex;
		ws(); if (!*rp || *rp == '}') return;
		save = rp; if (ident(id)) { ws(); if (*rp == '=') { rp++; e = x_expr(z); ws(); rp++; strcpy(rz[z].v[rz[z].nv].n, id); rz[z].v[rz[z].nv++].e = e; continue; } rp = save; }
		tmap(z, &e, &t); e = less(e, exit);
		if (*rp == ';') { rp++; add(z, e, t, -1); continue; }
		child = newzone(z); add(z, e, t, child);
		if (*rp == '{') { rp++; things(child, -1); ws(); rp++; continue; }
		while (*rp == ',') { rp++; tmap(z, &e, &t); add(z, less(e, exit), t, child); }
		rp += 2; ws(); ex = -1;
		do { if (*rp == ',') rp++; tmap(z, &e, &t); add(child, e, t, z); ex = ex < 0 ? e : e_new(E_ALT, ex, e); } while (*rp == ',');
		if (*rp == ';') { int i, k = e_new(E_SET, 0, 0); for (i = 0; i < 256; i++) s_add(&rx[k].s, i); rp++; rz[child].implicit = 1; add(child, less(k, ex), -1, -1); }
		else { rp++; things(child, ex); ws(); rp++; }
	}
}
/* classes: bytes that no set tells apart */
static void classes(void) {
	unsigned c, k; int i; rnc = 0;
	for (c = 0; c < 256; c++) {
		for (k = 0; k < rnc; k++) { int same = (c == '\n') == (rrep[k] == '\n'); for (i = 0; i < nrx && same; i++) if (rx[i].op == E_SET && s_has(&rx[i].s, c) != s_has(&rx[i].s, rrep[k])) same = 0; if (same) break; }
		if (k == rnc) { if (rnc == RMAXC) abort(); rrep[rnc++] = c; } rcls[c] = k;
	}
}
/* an expression as a nondeterministic automaton whose letters may also be complete automata's words is more than is needed: determinise bottom up */
struct rnfa { unsigned n; uint64_t t[RMAXS][RMAXC], eps[RMAXS], acc, start; };
static void minim(struct rdfa *d) { /* reachable states, merged by refinement */
	unsigned char cl[RMAXS], nc[RMAXS], ord[RMAXS], seen[RMAXS]; unsigned i, j, c, n = 0, k, changed = 1; static struct rdfa o;
	memset(seen, 0, sizeof seen); ord[n++] = 0; seen[0] = 1; for (i = 0; i < n; i++) for (c = 0; c < rnc; c++) { j = d->t[ord[i]][c]; if (!seen[j]) { seen[j] = 1; ord[n++] = j; } }
	for (i = 0; i < n; i++) cl[ord[i]] = d->acc[ord[i]];
	while (changed) { changed = 0; k = 0;
		for (i = 0; i < n; i++) { for (j = 0; j < i; j++) { if (cl[ord[i]] != cl[ord[j]]) continue; for (c = 0; c < rnc && cl[d->t[ord[i]][c]] == cl[d->t[ord[j]][c]]; c++) ; if (c == rnc) break; } nc[ord[i]] = j < i ? nc[ord[j]] : k++; }
		{ unsigned old = 0; for (i = 0; i < n; i++) { for (j = 0; j < i; j++) if (cl[ord[i]] == cl[ord[j]]) break; if (j == i) old++; } if (k != old) changed = 1; }
		for (i = 0; i < n; i++) cl[ord[i]] = nc[ord[i]]; }
	memset(&o, 0, sizeof o); o.n = 0; for (i = 0; i < n; i++) { unsigned s = cl[ord[i]]; if (s >= o.n) o.n = s + 1; o.acc[s] = d->acc[ord[i]]; for (c = 0; c < rnc; c++) o.t[s][c] = cl[d->t[ord[i]][c]]; }
	*d = o;
}
static uint64_t clo(const struct rnfa *m, uint64_t s) { uint64_t p; unsigned i; do { p = s; for (i = 0; i < m->n; i++) if (s >> i & 1) s |= m->eps[i]; } while (p != s); return s; }
static void subset(const struct rnfa *m, struct rdfa *d) {
	static uint64_t set[RMAXS]; unsigned i, j, c, q; memset(d, 0, sizeof *d); set[0] = clo(m, m->start); d->n = 1;
	for (i = 0; i < d->n; i++) { d->acc[i] = (set[i] & m->acc) != 0; for (c = 0; c < rnc; c++) { uint64_t s = 0; for (q = 0; q < m->n; q++) if (set[i] >> q & 1) s |= m->t[q][c]; s = clo(m, s); for (j = 0; j < d->n && set[j] != s; j++) ; if (j == d->n) { if (d->n == RMAXS) abort(); set[d->n++] = s; } d->t[i][c] = j; } }
	minim(d);
}
static void put(struct rnfa *m, unsigned at, const struct rdfa *d) { unsigned i, c; for (i = 0; i < d->n; i++) { for (c = 0; c < rnc; c++) m->t[at + i][c] |= (uint64_t) 1 << (at + d->t[i][c]); } }
static void compile(int e, struct rdfa *d) {
	struct rdfa *a = malloc(sizeof *a), *b = malloc(sizeof *b); struct rnfa *m = malloc(sizeof *m); unsigned i, j, c; const struct rex *x = &rx[e]; memset(m, 0, sizeof *m); memset(d, 0, sizeof *d);
	switch (x->op) {
	case E_SET: d->n = 3; for (c = 0; c < rnc; c++) { d->t[0][c] = s_has(&x->s, rrep[c]) ? 1 : 2; d->t[1][c] = d->t[2][c] = 2; } d->acc[1] = 1; minim(d); break;
	case E_EPS: d->n = 2; for (c = 0; c < rnc; c++) d->t[0][c] = d->t[1][c] = 1; d->acc[0] = 1; break;
	case E_NULL: d->n = 1; break;
	case E_NOT: compile(x->a, d); for (i = 0; i < d->n; i++) d->acc[i] = !d->acc[i]; break;
	case E_STAR: compile(x->a, a); m->n = a->n + 1; put(m, 1, a); m->eps[0] = 2; m->start = 1; m->acc = 1; for (i = 0; i < a->n; i++) if (a->acc[i]) m->eps[1 + i] |= 1; subset(m, d); break;
	case E_CAT: compile(x->a, a); compile(x->b, b); if (a->n + b->n > 64) abort(); m->n = a->n + b->n; put(m, 0, a); put(m, a->n, b); m->start = 1; for (i = 0; i < a->n; i++) if (a->acc[i]) m->eps[i] |= (uint64_t) 1 << a->n; for (i = 0; i < b->n; i++) if (b->acc[i]) m->acc |= (uint64_t) 1 << (a->n + i); subset(m, d); break;
	default: { /* product */
		static unsigned char pa[RMAXS * 4], pb[RMAXS * 4]; unsigned n = 1; compile(x->a, a); compile(x->b, b); pa[0] = pb[0] = 0;
		for (i = 0; i < n; i++) { int p = a->acc[pa[i]], q = b->acc[pb[i]]; d->acc[i] = x->op == E_ALT ? p | q : x->op == E_AND ? p & q : p & !q;
			for (c = 0; c < rnc; c++) { unsigned u = a->t[pa[i]][c], v = b->t[pb[i]][c]; for (j = 0; j < n && (pa[j] != u || pb[j] != v); j++) ; if (j == n) { if (n == RMAXS) abort(); pa[n] = u; pb[n++] = v; } d->t[i][c] = j; } }
		d->n = n; minim(d); } }
	free(a); free(b); free(m);
}
static void ref_build(const char *spec) {
	int z, i; unsigned s, c, ch; nrx = nrz = nrtok = 0; rp = spec; z = newzone(-1); things(z, -1); classes();
	for (z = 0; z < nrz; z++) for (i = 0; i < rz[z].nm; i++) { struct rdfa *d = rz[z].m[i].d = malloc(sizeof *d); compile(rz[z].m[i].e, d); memcpy(d->co, d->acc, sizeof d->co);
		do { ch = 0; for (s = 0; s < d->n; s++) if (!d->co[s]) for (c = 0; c < rnc; c++) if (d->co[d->t[s][c]]) { d->co[s] = ch = 1; break; } } while (ch); }
}
static void ref_free(void) { int z, i; for (z = 0; z < nrz; z++) for (i = 0; i < rz[z].nm; i++) free(rz[z].m[i].d); }
/* 0: fine; 1: a mapping matches the empty string; 2: two mappings match one string */
static int ref_bad(void) {
	int z, i, j, amb = 0; for (z = 0; z < nrz; z++) for (i = 0; i < rz[z].nm; i++) { struct rdfa *a = rz[z].m[i].d, *b; if (a->acc[0]) return 1;
		for (j = 0; j < i; j++) { static unsigned char seen[RMAXS][RMAXS], q[RMAXS * RMAXS][2]; unsigned n = 1, k, c; if (rz[z].m[i].tok == rz[z].m[j].tok && rz[z].m[i].to == rz[z].m[j].to) continue; b = rz[z].m[j].d;
			memset(seen, 0, sizeof seen); seen[0][0] = 1; q[0][0] = q[0][1] = 0; for (k = 0; k < n; k++) { if (a->acc[q[k][0]] && b->acc[q[k][1]]) amb = 2; for (c = 0; c < rnc; c++) { unsigned u = a->t[q[k][0]][c], v = b->t[q[k][1]][c]; if (!seen[u][v]) { seen[u][v] = 1; q[n][0] = u; q[n++][1] = v; } } } } }
	return amb;
}
