#include "h.h"
#include <fsm/print.h>
#include <fsm/options.h>
#include <fsm/capture.h>
#include <fsm/vm.h>
#include <fsm/walk.h>
#include <fsm/parser.h>
#include <fsm/subgraph.h>
#ifdef WITH_RE
#include <re/re.h>
#include <re/strings.h>
#include "libre/ast.h"
#include "libre/print.h"
#endif
/* Every history is run twice, from objects of its own at other addresses. Fresh heap memory holds unconstrained bytes: whatever is
 * decided, addressed or compared must not depend on them; both runs print the same bytes; nothing is left. */
/* an allocator of the caller's: later objects lie at lower addresses, everything it hands out comes back to it once */
static _Alignas(16) unsigned char arena[1 << 20]; static size_t top = sizeof arena; static long live; static const struct fsm_alloc *AL;
static void *a_malloc(void *o, size_t n) { size_t k = ((n + 15) & ~(size_t) 15) + 16; sx_assert(o == arena, "the allocator's opaque pointer"); if (k > top) sx_fail("harness: arena full"); top -= k; *(size_t *) (arena + top) = n; memset(arena + top + 16, 0xa5, n); live++; return arena + top + 16; }
static void *a_calloc(void *o, size_t n, size_t s) { void *p = a_malloc(o, n * s); memset(p, 0, n * s); return p; }
static void a_free(void *o, void *p) { unsigned char *q = p; sx_assert(o == arena, "the allocator's opaque pointer"); if (!p) return; sx_assert(q >= arena && q < arena + sizeof arena, "memory from elsewhere released to the caller's allocator"); sx_assert(*(size_t *) (q - 16) != (size_t) -1, "released twice to the caller's allocator"); memset(q, 0xdd, *(size_t *) (q - 16)); *(size_t *) (q - 16) = (size_t) -1; live--; }
static void *a_realloc(void *o, void *p, size_t n) { unsigned char *q = p; void *r; if (!p) return a_malloc(o, n); sx_assert(q >= arena && q < arena + sizeof arena, "memory from elsewhere resized by the caller's allocator"); r = a_malloc(o, n); memcpy(r, p, *(size_t *) (q - 16) < n ? *(size_t *) (q - 16) : n); a_free(o, p); return r; }
static const struct fsm_alloc own = { a_free, a_calloc, a_malloc, a_realloc, arena };
static void run(int k) { AL = k && sx_param("own", 1) ? &own : NULL; }
#define done(what) do { if (AL) sx_assert(live == 0, "memory of the caller's allocator not returned"); NO_LEAK(what); } while (0)
static char out[2][200000]; static size_t outn[2];
static void save(int k, FILE *w) { size_t n, i; const char *d = sx_mem_data(w, &n); sx_assert(outn[k] + n < sizeof out[k], "harness: too much output"); for (i = 0; i < n; i++) out[k][outn[k]++] = d[i]; sx_mem_close(w); }
static void note(int k, unsigned long v) { unsigned i; for (i = 0; i < 8; i++) out[k][outn[k]++] = v >> 8 * i & 255; }
static void print(int k, const struct fsm *f, enum fsm_print_lang l, unsigned om) {
	struct fsm_options o; FILE *w = sx_mem_writer(); memset(&o, 0, sizeof o);
	o.always_hex = om & 1; o.comments = om >> 1 & 1; o.consolidate_edges = om >> 2 & 1; o.group_edges = om >> 3 & 1; o.anonymous_states = om >> 4 & 1; o.fragment = om >> 5 & 1; o.case_ranges = om >> 6 & 1; o.ambig = AMBIG_MULTIPLE; o.io = om >> 7 & 1 ? FSM_IO_STR : FSM_IO_PAIR;
	note(k, fsm_print(w, f, &o, NULL, l)); save(k, w);
}
static void same(void) { size_t i; sx_assert(outn[0] == outn[1], "another amount of output"); for (i = 0; i < outn[0]; i++) if (out[0][i] != out[1][i]) { sx_fail("other output for the same input"); } }
static void begin(void) { outn[0] = outn[1] = 0; sx_symbolic_garbage(1); sx_no_uninit_branch(1); }
static struct aut A, B;
static struct fsm *mk(const struct aut *a, int ids) { struct fsm *f = build(a, AL); unsigned i;
	if (ids) for (i = 0; i < a->n; i++) { if (fsm_isend(f, i)) sx_assert(fsm_endid_set(f, i, 9 - i) && fsm_endid_set(f, i, 100), "setup"); if (ids > 1 && i == 1) sx_assert(fsm_eager_output_set(f, i, 3), "setup"); }
	if (ids > 2) sx_assert(fsm_capture_set_path(f, 0, A.start, A.start), "setup");
	return f; }
enum { O_NONE, O_CLONE, O_DET, O_REMEPS, O_TRIM, O_REV, O_SHUFFLE, O_VACUUM, O_REMOVE, O_MIN, O_COMPLETE, O_COMPLEMENT, O_UNION, O_CONCAT, O_INTERSECT, O_SUBTRACT, O_EQUAL, O_EXAMPLE, O_GEN, O_WALK, O_ARRAY, O_CHARSET, O_MERGE, O_SUB, O_PARSE, O_NOPS };
static int genk;
static enum fsm_generate_matches_cb_res gen_cb(const struct fsm *f, size_t depth, size_t cnt, size_t steps, const char *in, size_t n, fsm_state_t end, void *o) { size_t i; (void) f; (void) depth; (void) cnt; (void) steps; (void) o; (void) end; for (i = 0; i < n && outn[genk] < 150000; i++) out[genk][outn[genk]++] = in[i]; note(genk, end); return FSM_GENERATE_MATCHES_CB_RES_CONTINUE; }
static struct fsm *apply(int k, struct fsm *f, unsigned op, int ids) {
	struct fsm *g, *h; fsm_state_t s = 0; char b[64]; unsigned i; int r = 1;
	switch (op) {
	case O_CLONE: g = fsm_clone(f); sx_assert(g != NULL, "clone"); fsm_free(f); return g;
	case O_DET: r = fsm_determinise(f); break;
	case O_REMEPS: r = fsm_remove_epsilons(f); break;
	case O_TRIM: r = fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, NULL); note(k, r); r = 1; break;
	case O_REV: r = fsm_reverse(f); break;
	case O_SHUFFLE: r = fsm_shuffle(f, 5); break;
	case O_VACUUM: r = fsm_vacuum(f); break;
	case O_REMOVE: if (fsm_countstates(f) > 1) r = fsm_removestate(f, fsm_countstates(f) - 1); break;
	case O_MIN: r = fsm_determinise(f) && fsm_minimise(f); break;
	case O_COMPLETE: r = fsm_complete(f, fsm_isany); break;
	case O_COMPLEMENT: r = fsm_complement(f); break;
	case O_UNION: case O_CONCAT: case O_INTERSECT: case O_SUBTRACT:
		g = mk(&B, ids); h = op == O_UNION ? fsm_union(f, g, NULL) : op == O_CONCAT ? fsm_concat(f, g, NULL) : op == O_INTERSECT ? fsm_intersect(f, g) : fsm_subtract(f, g);
		if (!h) { fsm_free(g); note(k, 77); return f; } return h;
	case O_EQUAL: g = mk(&B, ids); note(k, fsm_equal(f, g)); fsm_free(g); note(k, fsm_empty(f)); break;
	case O_EXAMPLE: if (fsm_has(f, fsm_hasepsilons) && !fsm_remove_epsilons(f)) return f; for (i = 0; i < fsm_countstates(f); i++) { int n; if (!fsm_isend(f, i)) continue; n = fsm_example(f, i, b, sizeof b); note(k, n); if (n > 0) { unsigned j; for (j = 0; j < (unsigned) n && j < sizeof b - 1; j++) out[k][outn[k]++] = b[j]; } } break;
	case O_GEN: if (fsm_getstart(f, &s)) { r = fsm_determinise(f); genk = k; if (r) note(k, fsm_generate_matches(f, 3, 0, gen_cb, NULL)); } break;
	case O_ARRAY: { struct fsm *v[3]; struct fsm_combined_base_pair bp[3]; v[0] = f; v[1] = mk(&B, ids); v[2] = mk(&A, 0); f = fsm_union_array(3, v, bp); if (!f) { note(k, 78); return mk(&A, 0); } for (i = 0; i < 3; i++) { note(k, bp[i].state); note(k, bp[i].capture); } return f; }
	case O_CHARSET: r = fsm_determinise(f); if (fsm_countstates(f) == 0) break; g = fsm_intersect_charset(f, 2, "ac"); sx_assert(g != NULL, "fsm_intersect_charset"); return g;
	case O_MERGE: if (fsm_countstates(f) > 1) { r = fsm_mergestates(f, 0, fsm_countstates(f) - 1, &s); note(k, s); } break;
	case O_SUB: { struct fsm_subgraph su; fsm_state_t x = 0, q; fsm_subgraph_start(f, &su); if (!fsm_countstates(f)) break; sx_assert(fsm_addstate(f, &q), "setup"); fsm_subgraph_stop(f, &su); fsm_subgraph_start(f, &su); r = fsm_addstate(f, &q) && fsm_addedge_epsilon(f, q, 0); fsm_subgraph_stop(f, &su); x = su.start; if (r) r = fsm_subgraph_duplicate(f, &su, &x, &q); note(k, x); note(k, q); break; }
	case O_PARSE: { FILE *w; struct fsm_options o; size_t n; const char *d; if (!fsm_countstates(f) || fsm_countcaptures(f)) break; memset(&o, 0, sizeof o); w = sx_mem_writer(); r = fsm_print(w, f, &o, NULL, FSM_PRINT_FSM); d = sx_mem_data(w, &n); { FILE *rd = sx_mem_reader(d, n); g = fsm_parse(rd, AL); sx_mem_close(rd); } sx_mem_close(w); sx_assert(g != NULL, "fsm_parse"); fsm_free(f); return g; }
	case O_WALK: note(k, fsm_has(f, fsm_hasepsilons)); note(k, fsm_has(f, fsm_hasnondeterminism)); note(k, fsm_all(f, fsm_iscomplete)); note(k, fsm_all(f, fsm_hasincoming)); note(k, fsm_countedges(f)); break;
	}
	note(k, r); return f;
}
/* automata, one or two operations, the text and JSON forms */
void h_ops(void) {
	unsigned o1 = sx_choice("op", O_NOPS), o2 = sx_param("ops", 1) > 1 ? sx_choice("op", O_EQUAL) : O_NONE; int k, ids = sx_param("ids", 1);
	use_pal(PAL_D, 3);
	draw_aut(&A, sx_param("N", 3), sx_param("E", 2), sx_param("labels", 2), sx_param("eps", 1), 0);
	B = A; B.ends = 1 + (A.ends ? 1 : 0); if (B.ne) B.e[0].to = 0; if (B.ne && B.e[0].lab == EPS && B.e[0].from == 0) B.ne = 0;
	begin();
	for (k = 0; k < 2; k++) { run(k);
		struct fsm *f = mk(&A, ids);
		f = apply(k, f, o1, ids); f = apply(k, f, o2, ids);
		print(k, f, FSM_PRINT_FSM, 0); if (sx_param("ops", 1) == 1) print(k, f, FSM_PRINT_JSON, 0);
		note(k, fsm_countcaptures(f)); fsm_free(f);
		done("the operations");
	}
	same(); sx_reach("checked");
}
/* every output format for a minimal DFA */
void h_print(void) {
	static const enum fsm_print_lang L[] = { FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_GO, FSM_PRINT_AMD64_NASM, FSM_PRINT_API, FSM_PRINT_AWK, FSM_PRINT_C, FSM_PRINT_DOT, FSM_PRINT_FSM, FSM_PRINT_GO, FSM_PRINT_IR, FSM_PRINT_IRJSON, FSM_PRINT_JSON, FSM_PRINT_LLVM, FSM_PRINT_RUST, FSM_PRINT_SH, FSM_PRINT_VMC, FSM_PRINT_VMDOT, FSM_PRINT_VMOPS_C, FSM_PRINT_VMOPS_H, FSM_PRINT_VMOPS_MAIN };
	unsigned l = sx_choice("lang", sizeof L / sizeof *L), om = sx_choice("opts", sx_param("opts", 1)); int k; static const unsigned OM[] = { 0, 0x80, 0x23, 0x4e, 0x90, 0x15 };
	use_pal(PAL_D, 3);
	draw_dfa(&A, sx_param("N", 2), sx_param("labels", 2), sx_param("E", 3), 0);
	begin();
	for (k = 0; k < 2; k++) { run(k); struct fsm *f = mk(&A, sx_param("ids", 1)); sx_assert(fsm_determinise(f) && fsm_minimise(f), "setup"); print(k, f, L[l], OM[om]); fsm_free(f); done("fsm_print"); }
	same(); sx_reach("checked");
}
/* compiled for the virtual machine, written, read back, run on any bytes */
void h_vm(void) {
	unsigned n = sx_param("L", 2), i; char w[8]; int k, r[2]; unsigned enc = sx_choice("encoding", 2);
	use_pal(PAL_D, 3);
	draw_dfa(&A, sx_param("N", 2), sx_param("labels", 2), sx_param("E", 3), 0);
	for (i = 0; i < n; i++) w[i] = sx_byte("w");
	begin();
	for (k = 0; k < 2; k++) { run(k);
		struct fsm *f = mk(&A, 0); struct fsm_dfavm *vm; struct fsm_vm_compile_opts vo = { 0, FSM_VM_COMPILE_VM_V1, NULL }; struct fsm_options o; memset(&o, 0, sizeof o);
		if (enc) vo.output = FSM_VM_COMPILE_VM_V2;
		vm = fsm_vm_compile_with_options(f, &o, vo); sx_assert(vm != NULL, "fsm_vm_compile failed"); fsm_free(f);
		r[k] = fsm_vm_match_buffer(vm, w, n); fsm_vm_free(vm); done("the virtual machine");
	}
	sx_assert(r[0] == r[1], "another answer for the same input"); sx_reach("checked");
}
/* captures */
void h_exec(void) {
	unsigned n = sx_param("L", 3), i, j; char in[8]; struct wbuf b; int k; fsm_state_t end; struct fsm_capture cap[2][4];
	use_pal(PAL_D, 3); draw_dfa(&A, sx_param("N", 3), sx_param("labels", 1), sx_param("E", 3), 0);
	for (i = 0; i < n; i++) in[i] = sx_byte("w");
	begin();
	for (k = 0; k < 2; k++) { run(k); struct fsm *f = mk(&A, 0); int r;
		for (i = 1, j = 0; i < A.n && j < A.ne; j++) if (A.e[j].from == 0 && A.e[j].to == i) break;
		if (j < A.ne) sx_assert(fsm_capture_set_path(f, 0, 0, 1), "setup");
		memset(&cap[k], 0, sizeof cap[k]);
		b.p = (unsigned char *) in; b.n = n; b.i = 0; r = fsm_exec(f, wgetc, &b, &end, cap[k]); note(k, r); if (r == 1) { note(k, end); for (i = 0; i < fsm_countcaptures(f); i++) { note(k, cap[k][i].pos[0]); note(k, cap[k][i].pos[1]); } }
		fsm_free(f); done("fsm_exec");
	}
	same(); sx_reach("checked");
}
#ifdef WITH_RE
static const struct { enum re_dialect d; unsigned flags; const char *p; } PT[] = {
	{ RE_PCRE, 0, "ab" }, { RE_PCRE, 0, "^a|b$" }, { RE_PCRE, 0, "(a(b)?)*" }, { RE_PCRE, 0, "[a-c]+x{2,3}" }, { RE_PCRE, RE_ANCHORED, "[^ab].\\d" },
	{ RE_PCRE, RE_ICASE, "k[[:alpha:]]" }, { RE_PCRE, RE_REVERSE, "^ab*$" }, { RE_PCRE, 0, "abc|abd|x" }, { RE_PCRE, 0, "(?:a|b){0,2}\\Z" }, { RE_PCRE, RE_EXTENDED, "a b # c" },
	{ RE_NATIVE, 0, "^(a|b)*c$" }, { RE_NATIVE, 0, "[^a-z]?x" }, { RE_GLOB, 0, "a*b?" }, { RE_LIKE, 0, "a%_b" }, { RE_LITERAL, 0, "a.c" }, { RE_SQL, 0, "(a|b)%_[a-c]" }, { RE_PCRE, 0, "a)" }, { RE_PCRE, 0, "[b-a]" }, { RE_PCRE, 0, "" }, { RE_PCRE, 0, "()|a(?i)b" }, { RE_PCRE, 0, "(a" }, { RE_PCRE, 0, "a{3,2}" }, { RE_PCRE, 0, "[[:nosuch:]]" }, { RE_PCRE, 0, "\\x{zz}" },
};
static const char *P; static int getp(void *o) { (void) o; return *P ? (unsigned char) *P++ : EOF; }
static void err(int k, const struct re_err *e) { note(k, e->e); if (e->e != RE_ESUCCESS) { note(k, e->start.byte); note(k, e->end.byte); sx_assert(re_strerror(e->e) != NULL, "re_strerror"); } }
void h_re(void) {
	unsigned i = sx_choice("pattern", sizeof PT / sizeof *PT); int k;
	begin();
	for (k = 0; k < 2; k++) { run(k); struct re_err e; struct fsm *f; struct ast *a; unsigned l;
		memset(&e, 0, sizeof e); P = PT[i].p; f = re_comp(PT[i].d, getp, NULL, AL, PT[i].flags, &e); note(k, f != NULL); err(k, &e);
		if (f) { print(k, f, FSM_PRINT_FSM, 0); fsm_free(f); }
		memset(&e, 0, sizeof e); P = PT[i].p; a = re_parse(PT[i].d, getp, NULL, PT[i].flags, &e, NULL); note(k, a != NULL); err(k, &e);
		if (a) { for (l = AST_PRINT_NONE + 1; l <= AST_PRINT_TREE; l++) if (l != AST_PRINT_DOT && l != AST_PRINT_TREE && !strstr(PT[i].p, "[^")) { /* (these two print addresses; set subtraction cannot be printed) */ struct fsm_options o; FILE *w = sx_mem_writer(); memset(&o, 0, sizeof o); note(k, ast_print(w, a, &o, PT[i].flags, l)); save(k, w); } ast_free(a); }
		done("re_comp");
	}
	same(); sx_reach("checked");
}
void h_group(void) {
	static const char *const T[] = { "ab", "^a", "b$", "a*c", "^$", "[ab]+", "x|ab" }; unsigned i, p[2]; int k; struct re_err e;
	for (i = 0; i < 2; i++) p[i] = sx_choice("pattern", sizeof T / sizeof *T);
	begin();
	for (k = 0; k < 2; k++) { run(k); struct fsm *f[2], *q; struct fsm_combined_base_pair bp[2];
		for (i = 0; i < 2; i++) { P = T[p[i]]; f[i] = re_comp(RE_PCRE, getp, NULL, AL, RE_SAVE_LINKAGE_INFO, &e); sx_assert(f[i] != NULL, "re_comp"); }
		q = fsm_union_repeated_pattern_group(2, f, bp, 5); sx_assert(q != NULL, "fsm_union_repeated_pattern_group"); for (i = 0; i < 2; i++) { note(k, bp[i].state); note(k, bp[i].capture); }
		print(k, q, FSM_PRINT_FSM, 0); sx_assert(fsm_determinise(q), "fsm_determinise"); print(k, q, FSM_PRINT_FSM, 0); print(k, q, FSM_PRINT_C, 0); fsm_free(q);
		done("fsm_union_repeated_pattern_group");
	}
	same(); sx_reach("checked");
}
void h_strings(void) {
	unsigned n = sx_choice("strings", sx_param("S", 3)), i, j, fl = sx_choice("flags", 5); char s[4][4]; unsigned len[4]; int k; static const unsigned F[] = { 0, RE_STRINGS_ANCHOR_LEFT, RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_ANCHOR_LEFT | RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_AC_AUTOMATON };
	for (i = 0; i < n; i++) { len[i] = 1 + sx_choice("len", 2); for (j = 0; j < len[i]; j++) s[i][j] = "ab"[sx_choice("c", 2)]; }
	begin();
	for (k = 0; k < 2; k++) { run(k); struct re_strings *g = re_strings_new(); struct fsm *f; fsm_end_id_t id; sx_assert(g != NULL, "re_strings_new");
		for (i = 0; i < n; i++) { id = 5 + i; sx_assert(re_strings_add_raw(g, s[i], len[i], fl == 3 || fl == 0 ? &id : NULL), "re_strings_add_raw"); }
		f = re_strings_build(g, AL, (enum re_strings_flags) F[fl]); note(k, f != NULL); if (f) { print(k, f, FSM_PRINT_FSM, 0); fsm_free(f); }
		re_strings_free(g); done("re_strings");
	}
	same(); sx_reach("checked");
}
#endif
