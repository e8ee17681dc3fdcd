/* lexers generated by lx next to a reading of the specification of its own, on unconstrained input */
#include "sx.h"
#include "lxcorpus.h"
#include "lxw.h"
#include "lxref.h"
extern const struct lxw *const gen_lx[]; extern const char *const gen_msg[]; extern const unsigned gen_kind, gen_langs, gen_first, gen_count;
static const unsigned char *fd_p; static size_t fd_n;
long lxw_read(int fd, void *b, size_t n) { size_t k = fd_n < n ? fd_n : n; (void) fd; if (k > 1 && sx_choice("short read", 2)) k = 1; memcpy(b, fd_p, k); fd_p += k; fd_n -= k; return k; }
int lxw_fcntl(int fd, int c) { (void) fd; (void) c; return 0; }
static int eq(const char *a, const char *b) { return a && !strcmp(a, b); }
/* an example of a token is one of its spellings */
static void examples(const struct lxw *w, int z) {
	int t, i; for (t = 0; t < nrtok; t++) {
		const char *e = w->example(t); int any = 0, ok = 0; const char *p;
		for (i = 0; i < rz[z].nm; i++) { const struct rmap *m = &rz[z].m[i]; unsigned s = 0; if (m->tok != t || !m->d->co[0]) continue; any = 1; if (!e) continue; for (p = e; *p; ) { unsigned c = (unsigned char) *p++; if (c == '\\' && *p == 'x' && hexd(p[1]) >= 0 && hexd(p[2]) >= 0) { c = hexd(p[1]) * 16 + hexd(p[2]); p += 3; } s = m->d->t[s][rcls[c]]; } ok |= m->d->acc[s]; }
		if (!any) sx_assert(e == NULL, "an example of a token the zone does not have"); else { sx_assert(e != NULL, "no example of a token"); sx_assert(ok, "the example of a token is no spelling of it"); }
		if (e && !ok) sx_log("example", e, t); }
}
static unsigned char st[16];
void h_lex(void) {
	unsigned g = sx_choice("block", (gen_count + 255) / 256) * 256, L = sx_param("L", 3), n, i, q, p, calls, line = 1, col = 1; char t[4096]; struct lxopt o; const char *spec; const struct lxw *w; unsigned char *in; int z = 0, bad, dead = 0;
	g += sx_choice("item", gen_count - g < 256 ? gen_count - g : 256);
	spec = lx_item(gen_kind, gen_langs, gen_first + g, t, &o); w = gen_lx[g];
	ref_build(spec); bad = ref_bad();
	if (bad) { sx_assert(w == NULL, "lx accepts a specification that is ambiguous, or matches the empty string"); sx_assert(eq(gen_msg[g], bad == 1 ? "start" : "ambiguous"), "lx refuses a specification for another reason"); sx_reach("refused"); ref_free(); return; }
	if (w == NULL) { sx_log("lx", gen_msg[g], 0); sx_fail("lx makes nothing that compiles of a good specification"); }
	n = sx_choice("length", L + 1); in = malloc(n + (o.io == LX_STR || o.io == LX_SGETC)); for (i = 0; i < n; i++) { in[i] = sx_byte("in"); if (o.io == LX_STR || o.io == LX_SGETC) sx_assume(in[i] != 0); }
	if (o.io == LX_STR || o.io == LX_SGETC) in[n] = 0;
	fd_p = in; fd_n = n; w->init(in, n, n + 2);
	if (w->name) { sx_assert(eq(w->name(R_EOF), "EOF") && eq(w->name(R_ERROR), "ERROR") && eq(w->name(R_UNKNOWN), "UNKNOWN"), "names of the special tokens"); }
	if (w->example && n == 0) examples(w, 0);
	for (p = 0, calls = 0; calls < n + 3; calls++) {
		int want, got = w->next(), lenient = 0; struct lxpos a, b; unsigned s0 = p, l0 = line, c0 = col; unsigned end;
		if (dead) { sx_assert(got == R_EOF, "something follows the end of input, or a failure"); continue; }
		for (;;) { /* one zone */
			struct rmap *m = NULL; int k, live = 0;
			s0 = p; l0 = line; c0 = col;
			for (k = 0; k < rz[z].nm; k++) st[k] = 0;
			for (q = p; q < n; q++) {
				unsigned c = rcls[in[q]], v = 0; for (k = 0; k < rz[z].nm; k++) v |= rz[z].m[k].d->co[rz[z].m[k].d->t[st[k]][c]];
				if (!v) break;
				for (k = 0; k < rz[z].nm; k++) st[k] = rz[z].m[k].d->t[st[k]][c];
				if (rrep[c] == '\n') { line++; col = 1; } else col++;
			}
			for (k = 0; k < rz[z].nm; k++) if (rz[z].m[k].d->acc[st[k]]) m = &rz[z].m[k];
			(void) live; end = q;
			if (q == n && q == p) { want = R_EOF; break; }
			if (!m) { want = R_UNKNOWN; break; }
			p = q;
			if (m->tok >= 0) { want = m->tok; if (m->to >= 0) z = m->to; break; }
			if (m->to >= 0) { z = m->to; continue; }
			if (q == n) { want = rz[z].implicit ? R_UNKNOWN : R_EOF; lenient = rz[z].parent >= 0 && !rz[z].implicit; break; }
		}
		if (lenient && got == R_UNKNOWN) want = R_UNKNOWN;
		if (got != want) { sx_log("lx", w->name ? w->name(got) : "?", want); }
		sx_assert(got == want, "wrong token");
		if (want >= nrtok) dead = 1;
		if (w->pos) { w->pos(&a, &b);
			sx_assert(a.byte == s0 && a.line == l0 && a.col == c0, "position of the start of a token");
			sx_assert(b.byte == end && b.line == line && b.col == col, "position of the end of a token"); }
		if (w->text && (want < nrtok || want == R_EOF)) { size_t len; const char *x = w->text(&len); unsigned tl = want == R_EOF ? 0 : end - s0; if (want < nrtok) { sx_assert(len == tl + 1, "length of the text of a token"); for (i = 0; i < tl; i++) sx_assert((unsigned char) x[i] == in[s0 + i], "text of a token"); sx_assert(x[tl] == 0, "the text of a token is not terminated"); } }
		if (w->name && want < nrtok) { char u[32]; for (i = 0; rtok[want][i]; i++) u[i] = rtok[want][i] - 32; u[i] = 0; sx_assert(eq(w->name(got), u), "name of a token"); }
	}
	sx_assert(dead, "no end of input");
	w->done(); free(in); ref_free(); sx_reach("lexed");
}
