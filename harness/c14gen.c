#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <fsm/fsm.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include "c14api.h"
static int print_item(FILE *f, unsigned i) {
	struct api a; struct fsm *m = fsm_new(NULL); struct fsm_options o; unsigned k, c; char pre[30]; api_item(i, &a); memset(&o, 0, sizeof o); snprintf(pre, sizeof pre, "f%u_", i);
	o.prefix = pre; o.fragment = a.frag; o.always_hex = a.hex; o.comments = a.comments; fsm_addstate_bulk(m, a.n); fsm_setstart(m, a.start);
	for (k = 0; k < a.n; k++) fsm_setend(m, k, a.end[k]);
	for (k = 0; k < a.n; k++) if (a.end[k]) for (c = 0; c < a.nids; c++) fsm_endid_set(m, k, a.ids[c]);
	for (k = 0; k < a.ne; k++) if (a.e[k].eps) fsm_addedge_epsilon(m, a.e[k].from, a.e[k].to); else for (c = a.e[k].lo; c <= a.e[k].hi; c++) fsm_addedge_literal(m, a.e[k].from, a.e[k].to, (char) c);
	fprintf(f, "#include <assert.h>\n#include <stddef.h>\n#include <fsm/fsm.h>\n#include <fsm/pred.h>\n#undef LF_HEADER\n#define LF_HEADER <fsm/fsm.h>\n");
	if (a.frag) fprintf(f, "int f%u_fsm(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y) {\n", i);
	if (fsm_print(f, m, &o, NULL, FSM_PRINT_API)) return 2;
	if (a.frag) fprintf(f, "\treturn 1;\n}\n");
	fprintf(f, "int f%u_main(struct fsm *fsm, fsm_state_t *x, fsm_state_t *y) { return f%u_fsm(fsm, x, y); }\n", i, i); return 0;
}
static void limits(void) { struct rlimit c = { 10, 10 }, z = { 32 << 20, 32 << 20 }; setrlimit(RLIMIT_CPU, &c); setrlimit(RLIMIT_FSIZE, &z); alarm(120); }
int main(int argc, char **argv) {
	unsigned first = atoi(argv[4]), n = atoi(argv[5]), i; (void) argc;
	for (i = first; i < first + n; i++) {
		int st; pid_t p; static int endless;
		if (endless >= 2) { char fm[300]; FILE *e; snprintf(fm, sizeof fm, "%s/item%u.fail", argv[1], i); e = fopen(fm, "w"); fprintf(e, "printing others does not end"); fclose(e); continue; }
		p = fork(); char fn[300];
		if (p == 0) { FILE *f; int r; snprintf(fn, sizeof fn, "%s/item%u.txt", argv[1], i); f = fopen(fn, "w"); if (!f) _exit(9); limits(); freopen("/dev/null", "w", stderr); r = print_item(f, i); fclose(f); _exit(r); }
		waitpid(p, &st, 0); if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXFSZ)) endless++;
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { FILE *f; snprintf(fn, sizeof fn, "%s/item%u.txt", argv[1], i); unlink(fn); snprintf(fn, sizeof fn, "%s/item%u.fail", argv[1], i); f = fopen(fn, "w"); fprintf(f, WIFEXITED(st) ? "printing failed" : "printing crashed"); fclose(f); }
	}
	return 0;
}
