/* The command line programs: main() of the program is called with arguments and files made by the harness; its exit
 * status and what it prints are checked by done() afterwards, also when it ends by exit(). */
#include "rx.h"
#include <stdlib.h>
#include <unistd.h>
#include <fsm/parser.h>
#include <fsm/print.h>
#include <fsm/options.h>
static int status; static FILE *c_out, *c_stdout; static const char *od; static size_t on; static void done(void);
static void (*c_atx[4])(void); static int c_natx;
struct cfile { char name[12]; const void *p; size_t n; FILE *w; }; static struct cfile cf_[8]; static int ncf;
int cli_atexit(void (*f)(void)) { c_atx[c_natx++] = f; return 0; }
static void c_end(int c) { sx_allow_exit(0); while (c_natx) c_atx[--c_natx](); fflush(c_out); stdout = c_stdout; od = sx_mem_data(c_out, &on); status = c & 255; done(); }
void cli_exit(int c) { c_end(c); sx_allow_exit(1); exit(0); }
FILE *cli_fopen(const char *name, const char *mode) {
	int i; for (i = 0; i < ncf; i++) if (!strcmp(cf_[i].name, name)) { if (*mode == 'w') return cf_[i].w = sx_mem_writer(); return sx_mem_reader(cf_[i].p, cf_[i].n); }
	errno = ENOENT; return NULL;
}
int cli_fclose(FILE *f) { (void) f; return 0; }
long cli_getline(char **b, size_t *cap, FILE *f) {
	char *s = *b; size_t n = 0; int c;
	if (!s) s = malloc(*cap = 32);
	while ((c = getc(f)) != EOF) { if (n + 2 > *cap) s = realloc(s, *cap *= 2); s[n++] = c; if (c == '\n') break; }
	*b = s; if (!n) return -1; s[n] = 0; return n;
}
int cli_clock(int c, void *t) { (void) c; memset(t, 0, 16); return 0; }
/* POSIX: stops at the first argument that is not an option */
extern char *optarg; extern int optind;
int __posix_getopt(int argc, char *const *argv, const char *o) {
	static int pos = 1; const char *a, *p; int c;
	if (optind >= argc) return -1;
	a = argv[optind]; if (a[0] != '-' || !a[1]) return -1;
	if (!strcmp(a, "--")) { optind++; return -1; }
	c = (unsigned char) a[pos++]; p = c == ':' ? NULL : strchr(o, c);
	if (p && p[1] == ':') { if (a[pos]) optarg = (char *) a + pos; else { if (optind + 1 >= argc) { optind++; pos = 1; return '?'; } optarg = argv[++optind]; } optind++; pos = 1; }
	else if (!a[pos]) { optind++; pos = 1; }
	return p ? c : '?';
}
static char *av[24]; static int ac;
static void arg(const char *s) { char *p = sx_raw_alloc(strlen(s) + 1); strcpy(p, s); av[ac++] = p; av[ac] = NULL; }
static void args(const char *s) { char b[200]; size_t n; while (*s) { n = strcspn(s, " "); memcpy(b, s, n); b[n] = 0; if (n) arg(b); s += n; while (*s == ' ') s++; } } /* split at spaces */
static void argn(const unsigned char *w, unsigned n) { char *p = sx_raw_alloc(n + 1); memcpy(p, w, n); p[n] = 0; av[ac++] = p; av[ac] = NULL; }
static void addfile(const char *name, const void *p, size_t n) { strcpy(cf_[ncf].name, name); cf_[ncf].p = p; cf_[ncf].n = n; cf_[ncf].w = NULL; ncf++; }
int cli_main(int, char **);
static void show(void) { static char b[400]; int i; size_t n = 0; for (i = 1; i < ac && n < 300; i++) n += snprintf(b + n, sizeof b - n, "%s ", av[i]); sx_log("arguments: %s", b, 0); }
static void run(const char *in, size_t nin) {
	int r; sx_allow_exit(1); c_stdout = stdout; c_out = sx_mem_writer(); stdin = sx_mem_reader(in, nin); stdout = c_out; r = cli_main(ac, av); c_end(r);
}
static struct fsm *comp(enum re_dialect d, const char *s, unsigned flags) { const char *q = s; memset(&rerr, 0, sizeof rerr); return re_comp(d, fsm_sgetc, &q, NULL, (enum re_flags) flags, &rerr); }
static struct fsm *det(struct fsm *f) { sx_assert(fsm_determinise(f), "fsm_determinise failed"); return f; }
static int overlap(const struct fsm *a, const struct fsm *b) { struct fsm *q = fsm_intersect(fsm_clone(a), fsm_clone(b)); int r; sx_assert(q != NULL, "fsm_intersect failed"); r = fsm_empty(q) == 0; fsm_free(q); return r; }
static struct fsm *printed(void) { struct fsm *f = fsm_parse(sx_mem_reader(od, on), NULL); sx_assert(f != NULL, "what was printed cannot be read back"); return f; }
static const struct { const char *name; enum re_dialect d; const char *p[6]; } DI[] = {
	{ "pcre", RE_PCRE, { "^a+$", "b", "^(a|b)$", "^[^a]", "(", "(?=a)" } },
	{ "native", RE_NATIVE, { "^a*$", "ab", "^b", "a$", "[", "^b?a$" } },
	{ "glob", RE_GLOB, { "a*", "?b", "ab", "b", "*", "" } },
	{ "like", RE_LIKE, { "a%", "_b", "ab", "b", "%", "" } },
	{ "literal", RE_LITERAL, { "a", "ab", "b", "aa", "A", "" } },
	{ "sql", RE_SQL, { "a%", "(a|b)_", "b+", "_", "(", "a{2}" } },
};
