#define HOOK check22
#include "c17.c"
#include "c22.h"
