#define WITH_RE
#include "c27.c"
