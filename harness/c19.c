#include "h.h"
#include <re/strings.h>
/* Lists of strings over two letters and, in some jobs, one unconstrained byte, with and without ids. */
static struct ext want, got;
static unsigned char str[8][16]; static unsigned len[8], ns; static int sid[8]; /* id number or -1 */
static const fsm_end_id_t IDS[] = { 0, 3, 4294967295u, 70000 };
static void draw_list(unsigned N, unsigned L, int idmode, int sym) {
	unsigned i, j, k; int used = 0; unsigned char sb = 0;
	ns = sx_choice("strings", N + 1);
	for (i = 0; i < ns; i++) {
		len[i] = sx_choice("length", L + 1);
		for (j = 0; j < len[i]; j++) {
			k = sx_choice("letter", sym ? 3 : 2);
			if (k == 2) { if (!used) { sb = sx_byte("byte"); used = 1; } str[i][j] = sb; }
			else str[i][j] = k ? 'b' : 'a';
		}
		sid[i] = idmode == 0 ? -1 : idmode == 1 ? (int) i : (int) sx_choice("id", 3) - 1;
	}
	if (sym) sx_assume(used);
}
/* the automaton the list describes */
static void expect(unsigned flags) {
	unsigned i, j, n = 1, right = flags & (RE_STRINGS_ANCHOR_RIGHT | RE_STRINGS_AC_AUTOMATON);
	for (i = 0; i < ns; i++) n += len[i] + 1;
	x_init(&want, n); want.hasstart = 1; want.start = 0; n = 1;
	if (!(flags & RE_STRINGS_ANCHOR_LEFT)) x_edge(&want, 0, 0, 0, 255);
	for (i = 0; i < ns; i++) {
		x_eps(&want, 0, n);
		for (j = 0; j < len[i]; j++) { x_edge(&want, n, n + 1, str[i][j], str[i][j]); n++; }
		if (!right) x_edge(&want, n, n, 0, 255);
		x_col(&want, n, 1 | (sid[i] >= 0 ? 2u << sid[i] : 0)); n++;
	}
}
static struct fsm *compile(unsigned flags) {
	struct re_strings *g = re_strings_new(); unsigned i; struct fsm *f;
	sx_assert(g != NULL, "re_strings_new failed");
	for (i = 0; i < ns; i++) {
		unsigned char *p = sx_raw_alloc(len[i] + 1); memcpy(p, str[i], len[i]);
		sx_assert(re_strings_add_raw(g, p, len[i], sid[i] >= 0 ? &IDS[sid[i]] : NULL), "re_strings_add_raw failed");
	}
	f = re_strings_build(g, NULL, flags); re_strings_free(g); sx_assert(f != NULL, "re_strings_build failed");
	return f;
}
static const unsigned fl[] = { RE_STRINGS_ANCHOR_LEFT | RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_ANCHOR_RIGHT, RE_STRINGS_ANCHOR_LEFT, 0, RE_STRINGS_AC_AUTOMATON, RE_STRINGS_AC_AUTOMATON | RE_STRINGS_ANCHOR_LEFT };
static void compare(unsigned flags) {
	struct fsm *f = compile(flags);
	if (!fsm_getstart(f, &(fsm_state_t) { 0 })) sx_fail("no start state");
	x_of(&got, f); x_ids(&got, f, IDS, 4, NULL, 0); expect(flags);
	x_equiv(&want, &got, "the automaton of a list of strings does not match exactly those strings");
	sx_reach("compared"); fsm_free(f); NO_LEAK("re_strings");
}
void h_plain(void) { unsigned flags = fl[sx_choice("flags", sx_param("flags", 6))]; draw_list(sx_param("N", 3), sx_param("L", 2), 0, 0); compare(flags); }
void h_byte(void) { unsigned flags = fl[sx_choice("flags", sx_param("flags", 4))]; draw_list(sx_param("N", 2), sx_param("L", 2), 0, 1); compare(flags); }
/* ids: exact unless neither side is anchored */
void h_ids(void) { unsigned flags = fl[sx_choice("flags", sx_param("flags", 3))]; draw_list(sx_param("N", 3), sx_param("L", 2), sx_param("mode", 1), sx_param("sym", 0)); compare(flags); }
/* ids when neither side is anchored.  What the recorded finding leaves: ids and acceptance where a string has just ended */
static int both(const uint32_t *c) { return (c[1] & ~c[0]) == 0; }
static uint32_t w_just(const uint32_t *c) { return c[2] == (c[2] & c[0]) && (c[1] & ~c[2]) == 0 ? c[2] : ~c[2]; }
static struct ext ends;
void h_neither(void) {
	struct fsm *f; const struct ext *xs[3]; draw_list(sx_param("N", 2), sx_param("L", 2), sx_param("mode", 1), 0);
	f = compile(0); x_of(&got, f); x_ids(&got, f, IDS, 4, NULL, 0);
	expect(RE_STRINGS_ANCHOR_RIGHT); ends = want; expect(0);
	/* nothing invented: what is reported is in the language; nothing lost at the end of a string */
	xs[0] = &want; xs[1] = &ends; xs[2] = &got; x_rel(xs, 3, w_just, ~0u, "unanchored strings with ids: an id is invented, or lost at the end of its string");
	sx_reach("compared"); fsm_free(f); NO_LEAK("re_strings"); (void) both;
}
void h_known_neither(void) { draw_list(sx_param("N", 2), sx_param("L", 2), 1, 0); sx_assume(ns > 0); compare(0); }
/* the list given as an array of C strings */
void h_array(void) {
	const char *a[4]; unsigned i, flags = fl[sx_choice("flags", 4)]; struct fsm *f;
	draw_list(2, 2, 0, 0); for (i = 0; i < ns; i++) { str[i][len[i]] = 0; a[i] = (char *) str[i]; }
	f = re_strings(NULL, a, ns, flags); sx_assert(f != NULL, "re_strings failed"); x_of(&got, f); expect(flags);
	x_equiv(&want, &got, "the automaton of a list of strings does not match exactly those strings"); sx_reach("compared"); fsm_free(f); NO_LEAK("re_strings");
}
