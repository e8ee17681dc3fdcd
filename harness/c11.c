#include "h.h"
/* Virtual machine against the automaton. */
static const struct pal PAL_V[] = { /* together: every byte */
	{ 2, { { 0, 0 }, { 'a', 'f' } } }, { 1, { { 1, 'a' - 1 } } }, { 1, { { 'g', 255 } } }
};
static const struct pal PAL_W[] = { /* interleaved classes, not covering 10..19 and 255 */
	{ 3, { { 0, 0 }, { 64, 100 }, { 254, 254 } } }, { 3, { { 1, 9 }, { 20, 63 }, { 128, 128 } } }, { 2, { { 101, 127 }, { 129, 253 } } }
};
static struct fsm_dfavm *compile(const struct fsm *f, unsigned k) {
	static struct fsm_options opt; struct fsm_vm_compile_opts vo; memset(&vo, 0, sizeof vo);
	if (k == 4) return fsm_vm_compile(f);
	vo.flags = k & 1 ? FSM_VM_COMPILE_OPTIM : 0; vo.output = k & 2 ? FSM_VM_COMPILE_VM_V2 : FSM_VM_COMPILE_VM_V1; vo.log = NULL;
	opt.comments = k == 5;
	return fsm_vm_compile_with_options(f, &opt, vo);
}
static int run_vm(const struct fsm_dfavm *vm, const unsigned char *w, unsigned n, int file) {
	FILE *fp; int r;
	if (!file) return fsm_vm_match_buffer(vm, (const char *) w, n);
	fp = sx_mem_reader(w, n); r = fsm_vm_match_file(vm, fp); sx_mem_close(fp); return r;
}
void h_vm(void) {
	struct aut a; struct fsm *f; struct fsm_dfavm *vm; unsigned char w[8], *h; unsigned L = sx_param("L", 3), n, k, file; int r;
	use_pal(sx_choice("palette", sx_param("palettes", 2)) ? PAL_W : PAL_V, sx_param("labels", 3));
	draw_dfa(&a, sx_param("N", 2), NPAL, sx_param("E", 6), sx_param("anystart", 1)); f = build(&a, NULL);
	k = sx_choice("vm", 6); vm = compile(f, k); sx_assert(vm != NULL, "compilation failed");
	file = sx_choice("file", 2); n = sx_param("alln", 0) ? sx_choice("length", L + 1) : L; sx_word(w, n);
	h = sx_raw_alloc(n); memcpy(h, w, n);   /* exactly n bytes: reading further is an error */
	r = run_vm(vm, h, n, file);
	sx_assert(r == (int) sim_word(&a, w, n), "the virtual machine and the automaton disagree");
	sx_reach("compared"); fsm_vm_free(vm); fsm_free(f); NO_LEAK("the virtual machine");
}
/* labels that are unconstrained bytes, against concrete neighbours */
void h_label(void) {
	struct fsm *f = fsm_new(NULL); struct fsm_dfavm *vm; unsigned char l = sx_byte("label"), w[2]; unsigned c, i, o, shape = sx_choice("shape", 4), k = sx_choice("vm", sx_param("vms", 4)), want, cur; static const unsigned char O[] = { 0, 127, 128, 255, 'b' };
	fsm_addstate_bulk(f, 4); fsm_setstart(f, 0); fsm_setend(f, 1, 1); fsm_setend(f, 3, 1);
	fsm_addedge_literal(f, 0, 1, (char) l);
	for (c = 0; c < 256; c++) {
		if (shape == 0) break;
		for (o = i = 0; i < 5; i++) o |= O[i] == c;
		if (shape == 1 && !o) continue;
		if (shape == 3 && c % 3 == 0) continue;
		if (sx_fork(c != l)) fsm_addedge_literal(f, 0, 2, (char) c);
	}
	fsm_addedge_literal(f, 1, 1, 'x'); fsm_addedge_any(f, 2, 3);
	vm = compile(f, k); sx_assert(vm != NULL, "compilation failed"); sx_word(w, 2);
	for (o = i = 0; i < 5; i++) o |= O[i] == w[0];
	cur = w[0] == l ? 1 : shape == 0 ? 9 : shape == 1 ? (o ? 2 : 9) : shape == 2 ? 2 : (w[0] % 3 ? 2 : 9);
	want = cur == 1 ? w[1] == 'x' : cur == 2;
	sx_assert(run_vm(vm, w, 2, 0) == (int) want, "the virtual machine and the automaton disagree");
	sx_reach("compared"); fsm_vm_free(vm); fsm_free(f); NO_LEAK("the virtual machine");
}
/* a state with many targets, and programs long enough for every branch encoding: state 0 leads to N others by
 * different bytes, each of those needs M further comparisons */
void h_big(void) {
	unsigned N = sx_param("N", 256), M = sx_param("M", 3), c, j, k = sx_param("vm", 9) < 9 ? (unsigned) sx_param("vm", 9) : sx_choice("vm", 4), ch = sx_param("chain", 0), how = sx_choice("reverse", 2); struct fsm *f = fsm_new(NULL); struct fsm_dfavm *vm; unsigned char w[3] = { 0, 0, 0 }; unsigned want;
	fsm_addstate_bulk(f, N + 3); fsm_setstart(f, how ? N + 2 : 0); fsm_setend(f, N, 1);
#define S(i) (how ? N + 2 - (i) : (i))
	fsm_setend(f, N, 0); fsm_setend(f, S(N + 1), 1);
	for (c = 0; c < 256; c++) fsm_addedge_literal(f, S(0), S(1 + c % N), (char) c);
	for (c = 0; c < N; c++) for (j = 0; j < M; j++) fsm_addedge_literal(f, S(1 + c), S(j & 1 ? N + 1 : ch ? 1 + (c + j) % N : N + 2), (char) (c + 5 * j));
	vm = compile(f, k); sx_assert(vm != NULL, "compilation failed"); sx_word(w, sx_param("L", 2)); if (sx_param("second", 0)) { static const unsigned char J[] = { 0, 1, 23 }; w[1] = (unsigned char) (w[0] % N + 5 * J[sx_choice("second", 3)]); }
	{ unsigned i = w[0] % N, d; want = 0; if (sx_param("L", 2) == 2) for (j = 1; j < M; j += 2) want |= w[1] == (unsigned char) (i + 5 * j); else want = 0; (void) d; }
	sx_assert(run_vm(vm, w, sx_param("L", 2), 0) == (int) want, "the virtual machine and the automaton disagree");
	sx_reach("compared"); fsm_vm_free(vm); fsm_free(f); NO_LEAK("the virtual machine");
}
/* inputs longer than the reader's buffer, with unconstrained bytes around the boundary */
void h_file(void) {
	static unsigned char b[8400]; struct fsm *f = fsm_new(NULL); struct fsm_dfavm *vm; unsigned i, n = 4094 + sx_choice("length", 5), at = sx_choice("at", 3), k = sx_choice("vm", 4); int want;
	if (sx_choice("twice", 2)) n += 4096;
	fsm_addstate_bulk(f, 3); fsm_setstart(f, 0); fsm_setend(f, 1, 1); fsm_addedge_literal(f, 0, 1, 'a'); fsm_addedge_literal(f, 1, 0, 'b'); fsm_addedge_literal(f, 0, 2, 'c'); fsm_addedge_any(f, 2, 2); fsm_setend(f, 2, 1);
	for (i = 0; i < n; i++) b[i] = i & 1 ? 'b' : 'a';
	at = n - 1 - at; b[at] = sx_byte("byte"); if (at > 1) b[at - 1] = sx_byte("byte");
	vm = compile(f, k); sx_assert(vm != NULL, "compilation failed");
	{ unsigned s = 0; for (i = at > 1 ? at - 1 : 0; i < n; i++) { if (i == at - 1) s = i & 1; s = s == 2 ? 2 : s == 0 ? (b[i] == 'a' ? 1 : b[i] == 'c' ? 2 : 9) : s == 1 ? (b[i] == 'b' ? 0 : 9) : 9; } want = s == 1 || s == 2; }
	sx_assert(run_vm(vm, b, n, 1) == want, "the virtual machine and the automaton disagree on a file");
	sx_reach("compared"); fsm_vm_free(vm); fsm_free(f); NO_LEAK("the virtual machine");
}
