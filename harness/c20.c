#include "c15.c"
#include "c20.h"
void h_lit(void) {
	unsigned k = sx_param("flags", 0), flags = k < 7 ? fl[k] : fl[sx_choice("flags", 7)]; anch = (flags & RE_ANCHORED) != 0;
	w_begin((flags & RE_ICASE ? FI : 0) | (flags & RE_SINGLE ? FS : 0) | (flags & RE_EXTENDED ? FX : 0));
	draw(alpha[sx_param("alphabet", 0)], sx_param("N", 4)); w_alt(); check(RE_PCRE, flags, lv[0].alt, R_EOLNL);
}
void h_plain(void) { plain(RE_PCRE); }
void h_bytes(void) { bytes(); }
