#define HOOK check22
#include "c16.c"
#include "c22.h"
