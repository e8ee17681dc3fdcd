#include "h.h"
#include <re/re.h>
#include <re/groups.h>
#include <stdbool.h>
/* Format strings of unconstrained bytes; the reference walks along and forks on what a byte is. */
static unsigned char fmt[32], outp[200]; static unsigned nf, no;
static const char *gv[16]; static unsigned gc; static const char *g0, *ne;
static int has; static size_t outn;
enum { OK, OVERFLOW, BAD };
static unsigned est, eend; /* where it goes wrong */
static int room(unsigned n) { return !has || no + n <= outn; }
static int put(const char *s) { unsigned n = strlen(s), i; if (!room(n)) return 0; for (i = 0; i < n; i++) outp[no++] = s[i]; return 1; }
static int reference(unsigned char esc) {
	unsigned i = 0; no = 0;
	while (i < nf) {
		unsigned s = i; const char *v;
		if (!sx_fork(fmt[i] == esc)) { if (!room(1)) return OVERFLOW; outp[no++] = fmt[i++]; continue; }
		i++;
		if (i < nf && sx_fork(fmt[i] == esc)) { if (!room(1)) return OVERFLOW; outp[no++] = esc; i++; continue; }
		if (i == nf || !sx_fork((fmt[i] >= '0') & (fmt[i] <= '9'))) { est = s; eend = i; return BAD; }
		{ unsigned g = 0; /* groups above groupc are all alike */
		for (; i < nf && sx_fork((fmt[i] >= '0') & (fmt[i] <= '9')); i++) { unsigned d = fmt[i] - '0'; if (g * 10 > gc) { g = gc + 1; continue; } if (gc < 9 && sx_fork(d > gc)) g = gc + 1; else g = g * 10 + sx_fork(d); if (g > gc) g = gc + 1; }
		v = g == 0 ? g0 : g <= gc ? gv[g - 1] : ne; }
		if (!v) { est = s; eend = i; return BAD; }
		if (!put(v)) return OVERFLOW;
	}
	return room(1) ? OK : OVERFLOW;
}
static void run(unsigned char esc) {
	char *out = NULL; struct re_pos s, e; bool r; int w; unsigned i, ok = 1, pos = sx_choice("positions", 2);
	char *f = sx_raw_alloc(nf + 1); memcpy(f, fmt, nf); f[nf] = 0;
	if (has) { out = malloc(outn ? outn : 1); memset(out, 0x55, outn ? outn : 1); }
	w = reference(esc); s.byte = e.byte = 12345;
	r = re_interpolate_groups(f, (char) esc, g0, gc, gc ? gv : NULL, ne, out, outn, pos ? &s : NULL, pos ? &e : NULL);
	sx_assert(r == (w == OK), w == OK ? "interpolation fails" : w == BAD ? "an invalid reference is accepted" : "an output that does not fit is accepted");
	if (w == OK) {
		if (has) { for (i = 0; i < no; i++) ok &= (unsigned char) out[i] == outp[i]; sx_assert(ok, "the output is not the format with the groups put in"); sx_assert(out[no] == 0, "the output is not terminated"); }
		sx_reach("interpolated");
	} else {
		if (pos && w == BAD) sx_assert(s.byte == est && e.byte == eend, "the position of the error is not that of the reference");
		if (pos && w == OVERFLOW) sx_assert(s.byte == 0 && e.byte <= nf, "the position of the overflow is not in the format");
		if (has && outn) { for (i = 0; i < outn && out[i]; i++) ; sx_assert(i < outn, "the output of a failed interpolation is not terminated"); }
		sx_reach(w == BAD ? "bad reference" : "overflow");
	}
	if (has && outn == 0) sx_assert(out[0] == 0x55, "a buffer of no bytes is written to");
	free(out); NO_LEAK("re_interpolate_groups");
}
static unsigned char draw_esc(void) { static const unsigned char es[] = { '$', '\\', 'a', 255, ':' }; unsigned char e = es[sx_choice("escape", 5)]; return e; }
static const char *const vals[] = { "", "g", "xy", "$1", "\\" };
void h_bytes(void) {
	unsigned i, N = sx_param("N", 4), M = sx_param("M", 6); unsigned char esc;
	nf = sx_choice("length", N + 1); gc = sx_choice("groups", sx_param("G", 3)); g0 = vals[sx_choice("group 0", 2) * 2]; for (i = 0; i < gc; i++) gv[i] = vals[(i + 1 + gc) % 5];
	ne = sx_choice("default", 2) ? "-" : NULL; outn = sx_choice("room", M + 2); has = outn != M + 1; if (!has) outn = 0;
	esc = draw_esc(); for (i = 0; i < nf; i++) { fmt[i] = sx_byte("byte"); sx_assume(fmt[i] != 0); }
	run(esc);
}
/* an unconstrained escape character */
void h_escape(void) {
	unsigned i, N = sx_param("N", 3); unsigned char esc = sx_byte("escape"); sx_assume((esc != 0) & ((esc < '0') | (esc > '9')));
	nf = sx_choice("length", N + 1); gc = 1; g0 = "xy"; gv[0] = "g"; ne = NULL; outn = sx_choice("room", 6); has = 1;
	for (i = 0; i < nf; i++) { fmt[i] = sx_byte("byte"); sx_assume(fmt[i] != 0); }
	run(esc);
}
/* numbers of several digits, with leading zeros and beyond what an unsigned holds */
void h_numbers(void) {
	unsigned i, Z = sx_param("Z", 12), n = 0; char d[8][4]; (void) d;
	static const char *const names[] = { "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L" };
	gc = sx_choice("groups", 3) * 6; g0 = "0"; for (i = 0; i < gc; i++) gv[i] = names[i]; ne = sx_choice("default", 2) ? "none" : NULL; has = 1; outn = 8;
	fmt[n++] = 'x'; fmt[n++] = '$';
	{ /* just past what 32 or 64 bits hold */ static const char *const past[] = { "", "42949672", "429496729", "4294967296", "42949672960", "85899345", "858993459", "21474836", "214748364", "1844674407370955161", "184467440737095516", "922337203685477580" }; const char *q = past[sx_choice("past", 12)]; while (*q) fmt[n++] = *q++; }
	i = sx_choice("zeros", n > 2 ? 2 : Z); while (i--) fmt[n++] = '0'; i = sx_choice("digits", 3); while (i--) { fmt[n] = sx_byte("digit"); sx_assume((fmt[n] >= '0') & (fmt[n] <= '9')); n++; }
	i = sx_choice("more", n > 10 ? 2 : Z); while (i--) fmt[n++] = '1'; if (sx_choice("then", 2)) fmt[n++] = 'y';
	nf = n; run('$');
}
/* the largest number of groups */
void h_many(void) {
	unsigned i; static const char *big[1]; (void) big; static const char *one = "1"; const char **all; unsigned k = 100 + sx_choice("groups", 20);
	all = malloc(k * sizeof *all); for (i = 0; i < k; i++) all[i] = i == k - 1 ? "last" : one;
	{ char f[16], out[8]; bool r; struct re_pos s, e; unsigned g = sx_range("group", 90, 130); sprintf(f, "$%u", (unsigned) sx_fork(g)); r = re_interpolate_groups(f, '$', "0", k, all, NULL, out, sizeof out, &s, &e);
	sx_assert(r == (sx_fork(g) <= (int) k), "the last group is wrong"); if (r) sx_assert(!strcmp(out, sx_fork(g) == (int) k ? "last" : "1"), "another group is put in"); else sx_assert(s.byte == 0 && e.byte == strlen(f), "the position of the error is not that of the reference"); }
	free(all); sx_reach("many"); NO_LEAK("re_interpolate_groups");
}
