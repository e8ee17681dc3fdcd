/* lx's reading of specifications, parts of which are unconstrained */
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include "lxcorpus.h"
#include <fsm/fsm.h>
struct fsm_alloc; struct ast;
int print_progress; int important(unsigned n) { (void) n; return 0; }
void lx_mutex_lock(void) {} void lx_mutex_unlock(void) {}
extern struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc);
static char t[8192]; static size_t n;
static void go(void) { struct ast *a; sx_allow_exit(1); a = lx_parse(sx_mem_reader(t, n), NULL); sx_assert(a != NULL, "lx_parse returns nothing"); sx_reach("read"); }
/* one byte of each specification is unconstrained */
void h_one(void) {
	unsigned s = sx_choice("spec", NSPECS), st = sx_param("stride", 4), k; n = strlen(SPECS[s]); memcpy(t, SPECS[s], n);
	k = sx_choice("at", (n + st - 1) / st) * st + (s + sx_param("off", 0)) % st; if (k >= n) k = n - 1; if (k) sx_reach("inside");
	t[k] = sx_byte("byte"); go();
}
/* unconstrained bytes alone, or where a pattern or a thing is expected */
void h_any(void) {
	static const char *const B[] = { "", "'a'", "'", "\"\\", "/", "x = 'a'; ", "'a' .. 'b' { ", "'a' -> ", "'a' .. 'b'" }, *const A[] = { "", "' -> $a;", "\" -> $a;", "/ -> $a;", " -> $a;", ";", "}" };
	unsigned L = sx_param("L", 2), i, b = sx_choice("before", sizeof B / sizeof *B), a = sx_choice("after", sizeof A / sizeof *A), l = sx_choice("length", L + 1);
	strcpy(t, B[b]); n = strlen(t); for (i = 0; i < l; i++) t[n++] = sx_byte("byte"); memcpy(t + n, A[a], strlen(A[a])); n += strlen(A[a]); sx_reach("inside"); go();
}
/* long patterns, names, bodies */
void h_long(void) {
	unsigned len = 505 + sx_choice("length", 12), i, k = sx_choice("kind", 4); sx_reach("inside");
	strcpy(t, k == 0 ? "'" : k == 1 ? "/" : k == 2 ? "$" : ""); n = strlen(t); for (i = 0; i < len; i++) t[n++] = 'a'; t[n - 1 - sx_choice("at", 2)] = sx_byte("byte"); strcpy(t + n, k == 0 ? "' -> $a;" : k == 1 ? "/ -> $a;" : k == 2 ? " -> $a;" : " = 'a';"); n = strlen(t); go();
}
