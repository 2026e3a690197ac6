#define HUGE_ONLY { "allocpool", scn_allocpool, 1 }
#include "h_huge.c"
