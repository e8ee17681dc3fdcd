/* Prints the corpus: one file per item.  Arguments: directory kind langs first count */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include "corpus.h"
static struct gdfa g;
static int print_item(FILE *f, unsigned kind, unsigned langs, unsigned i) {
	struct item t; struct fsm_options o; struct fsm *m; unsigned k, c; char pre[40]; static const enum fsm_io IO[] = { FSM_IO_GETC, FSM_IO_STR, FSM_IO_PAIR }; static const enum fsm_ambig AM[] = { AMBIG_NONE, AMBIG_ERROR, AMBIG_EARLIEST, AMBIG_MULTIPLE };
	g_item(kind, langs, i, &t, &g); memset(&o, 0, sizeof o); snprintf(pre, sizeof pre, "f%u_", i);
	o.prefix = pre; o.io = IO[t.io]; o.ambig = AM[t.ambig]; o.case_ranges = !!(t.flags & F_RANGES); o.always_hex = !!(t.flags & F_HEX); o.comments = !!(t.flags & F_COMMENTS); o.fragment = !!(t.flags & F_FRAG) && g.hasstart; o.group_edges = i & 1; o.consolidate_edges = i >> 1 & 1; o.anonymous_states = i >> 2 & 1;
	m = fsm_new(NULL); if (!m || !fsm_addstate_bulk(m, g.n)) return 1;
	for (k = 0; k < g.ne; k++) for (c = g.e[k].lo; c <= g.e[k].hi; c++) if (!fsm_addedge_literal(m, g.e[k].from, g.e[k].to, (char) c)) return 1;
	for (k = 0; k < g.n; k++) { fsm_setend(m, k, g.end[k]); for (c = 0; c < g.nids[k]; c++) if (!fsm_endid_set(m, k, g.ids[k][c])) return 1; }
	if (g.hasstart) fsm_setstart(m, g.start);
	if (t.lang == L_LLVM) { /* a wrapper gives the function the signature the C code has */
		const char *at = t.io == I_GETC ? "ptr, ptr" : t.io == I_STR ? "ptr" : "ptr, ptr", *ap = t.io == I_GETC ? "ptr %x, ptr %y" : t.io == I_STR ? "ptr %x" : "ptr %x, ptr %y"; (void) at;
		if (0 != fsm_print(f, m, &o, NULL, FSM_PRINT_LLVM)) return 2;
		fprintf(f, "\ndefine i32 @f%u_w(%s%s) {\n", i, ap, t.ambig == A_NONE ? "" : t.ambig == A_MULTIPLE ? ", ptr %ids, ptr %count" : ", ptr %id");
		fprintf(f, "  %%r = call %%rt @f%u_main(%s)\n", i, ap);
		if (t.ambig == A_NONE) fprintf(f, "  %%o = zext %%rt %%r to i32\n  ret i32 %%o\n}\n");
		else if (t.ambig == A_MULTIPLE) fprintf(f, "  %%c = extractvalue %%rt %%r, 1\n  %%b = icmp ne i64 %%c, -1\n  br i1 %%b, label %%y1, label %%n1\ny1:\n  store i64 %%c, ptr %%count\n  %%a = extractvalue %%rt %%r, 0\n  store ptr %%a, ptr %%ids\n  ret i32 1\nn1:\n  ret i32 0\n}\n");
		else fprintf(f, "  %%b = extractvalue %%rt %%r, 0\n  br i1 %%b, label %%y1, label %%n1\ny1:\n  %%a = extractvalue %%rt %%r, 1\n  store i32 %%a, ptr %%id\n  ret i32 1\nn1:\n  ret i32 0\n}\n");
		return 0;
	}
	fprintf(f, "#include <stddef.h>\n#include <stdio.h>\n#include <string.h>\n");
	if (t.lang == L_VMOPS) {
		if (0 != fsm_print(f, m, &o, NULL, FSM_PRINT_VMOPS_H) || 0 != fsm_print(f, m, &o, NULL, FSM_PRINT_VMOPS_C)) return 2;
		fprintf(f, "#define main f%u_program\n", i);
		if (0 != fsm_print(f, m, &o, NULL, FSM_PRINT_VMOPS_MAIN)) return 2;
		fprintf(f, "#undef main\n"); return 0;
	}
	if (o.fragment) {
		fprintf(f, "int f%u_main(%s%s) {\n", i, t.io == I_GETC ? "int (*fsm_getc)(void *), void *getc_opaque" : t.io == I_STR ? "const char *s" : "const char *b, const char *e", t.ambig == A_NONE ? "" : t.ambig == A_MULTIPLE ? ", const unsigned **ids, size_t *count" : ", unsigned *id");
		if (t.lang == L_C) fprintf(f, t.io == I_GETC ? "int c;\n" : "const char *p;\n");
	}
	if (0 != fsm_print(f, m, &o, NULL, t.lang == L_C ? FSM_PRINT_C : FSM_PRINT_VMC)) return 2;
	if (o.fragment) fprintf(f, "}\n");
	return 0;
}
static void limits(void) { struct rlimit c = { 10, 10 }, z = { 32 << 20, 32 << 20 }; setrlimit(RLIMIT_CPU, &c); setrlimit(RLIMIT_FSIZE, &z); alarm(120); }
int main(int argc, char **argv) {
	unsigned kind = atoi(argv[2]), langs = atoi(argv[3]), first = atoi(argv[4]), n = atoi(argv[5]), i; (void) argc;
	for (i = first; i < first + n; i++) {
		int st; pid_t p; static int endless;
		if (endless >= 2) { char fm[300]; FILE *e; snprintf(fm, sizeof fm, "%s/item%u.fail", argv[1], i); e = fopen(fm, "w"); fprintf(e, "printing others does not end"); fclose(e); continue; }
		p = fork();
		if (p == 0) { char fn[300]; FILE *f; int r; snprintf(fn, sizeof fn, "%s/item%u.txt", argv[1], i); f = fopen(fn, "w"); if (!f) _exit(9); limits(); freopen("/dev/null", "w", stderr); r = print_item(f, kind, langs, i); fflush(NULL); if (ferror(f)) r = 9; fclose(f); _exit(r); }
		waitpid(p, &st, 0); if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXFSZ)) endless++;
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { char fn[300]; FILE *f; snprintf(fn, sizeof fn, "%s/item%u.txt", argv[1], i); unlink(fn); snprintf(fn, sizeof fn, "%s/item%u.fail", argv[1], i); f = fopen(fn, "w"); fprintf(f, WIFEXITED(st) ? "printing failed" : "printing crashed"); fclose(f); }
	}
	return 0;
}
