#include "c16.c"
#include "c20.h"
void h_lit(void) { unsigned flags = begin(sx_param("flags", 0)); draw(alpha[sx_param("alphabet", 0)], sx_param("N", 4)); w_alt(); check(RE_NATIVE, flags, lv[0].alt, R_EOL); }
void h_plain(void) { plain(RE_NATIVE); }
