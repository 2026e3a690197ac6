#define HUGE_ONLY { "string", scn_string, 1 }
#include "h_huge.c"
