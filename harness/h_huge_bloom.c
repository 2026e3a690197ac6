#define HUGE_ONLY { "bloom", scn_bloom, 1 }
#include "h_huge.c"
