/* around one generated lexer */
#include <stdlib.h>
#include <string.h>
#include "lxw.h"
static LXT lx0; static void *tbuf; static size_t total;
static const unsigned char *in_p; static size_t in_n;
#if IO == 0
static struct lx_arr arr;
#elif IO == 1
static const char *sp;
#elif IO == 2
#include "sx.h"
static FILE *fp;
#elif IO == 3
static struct lx_fd fdo; static char fbuf[2];
#elif IO == 4
static int own(LXT *l) { (void) l; if (!in_n) return EOF; in_n--; return *in_p++; }
#endif
#if !(FLAGS & 2)
#if FLAGS & 1
static struct lx_fixedbuf fb;
#else
static struct lx_dynbuf db;
#endif
#endif
static void w_init(const unsigned char *b, size_t n, size_t fixed) {
	in_p = b; in_n = n; FN(init)(&lx0);
#if IO == 0
	arr.p = (char *) b; arr.len = n; lx0.lgetc = FN(agetc); lx0.getc_opaque = &arr;
#elif IO == 1
	sp = (const char *) b; lx0.lgetc = FN(sgetc); lx0.getc_opaque = &sp;
#elif IO == 2
	fp = sx_mem_reader(b, n); lx0.lgetc = FN(fgetc); lx0.getc_opaque = fp;
#elif IO == 3
	fdo.fd = 7; fdo.buf = fdo.p = fbuf; fdo.len = 0; fdo.bufsz = sizeof fbuf; lx0.lgetc = FN(dgetc); lx0.getc_opaque = &fdo;
#elif IO == 4
	lx0.lgetc = own;
#elif IO == 5
	FN(input_str)(&lx0, (const char *) b);
#else
	lx0.p = (const char *) b; lx0.e = (const char *) b + n;
#endif
#if !(FLAGS & 2)
#if FLAGS & 1
	fb.a = fb.p = malloc(fixed); fb.len = fixed; lx0.buf_opaque = &fb; lx0.push = FN(fixedpush); lx0.clear = FN(fixedclear); tbuf = fb.a;
#else
	memset(&db, 0, sizeof db); lx0.buf_opaque = &db; lx0.push = FN(dynpush); lx0.clear = FN(dynclear); lx0.free = FN(dynfree);
#endif
#endif
}
static int w_tok(int t) { unsigned i; for (i = 0; i < NTOK; i++) if (TV[i] == t) return i; return t == T_EOF ? R_EOF : t == T_ERROR ? R_ERROR : t == T_UNKNOWN ? R_UNKNOWN : R_OTHER; }
static int w_next(void) { return w_tok(FN(next)(&lx0)); }
#if !(FLAGS & 4)
static void w_pos(struct lxpos *a, struct lxpos *b) { a->byte = lx0.start.byte; a->line = lx0.start.line; a->col = lx0.start.col; b->byte = lx0.end.byte; b->line = lx0.end.line; b->col = lx0.end.col; }
#else
#define w_pos 0
#endif
#if !(FLAGS & 2)
#if FLAGS & 1
static const char *w_text(size_t *n) { *n = fb.p - fb.a; return fb.a; }
#else
static const char *w_text(size_t *n) { *n = db.p - db.a; return db.a; }
#endif
#else
#define w_text 0
#endif
static int w_val(int t) { return t == R_EOF ? T_EOF : t == R_ERROR ? T_ERROR : t == R_UNKNOWN ? T_UNKNOWN : t < NTOK ? TV[t] : 12345; }
#if !(FLAGS & 256)
static const char *w_name(int t) { return FN(name)(w_val(t)); }
#else
#define w_name 0
#endif
#if !(FLAGS & 128)
static const char *w_example(int t) { return FN(example)(lx0.z, w_val(t)); }
#else
#define w_example 0
#endif
static void w_done(void) {
#if IO == 2
	sx_mem_close(fp);
#endif
#if !(FLAGS & 2)
#if FLAGS & 1
	free(tbuf);
#else
	lx0.free(&db);
#endif
#endif
}
const struct lxw W = { NTOK, IO, FLAGS, w_init, w_next, w_pos, w_text, w_name, w_example, w_done };
