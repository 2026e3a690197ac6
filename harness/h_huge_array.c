#define HUGE_ONLY { "array", scn_array, 1 }
#include "h_huge.c"
