#define HUGE_ONLY { "jhash", scn_jhash, 1 }
#include "h_huge.c"
