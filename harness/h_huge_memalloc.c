#define HUGE_ONLY { "memalloc", scn_memalloc, 1 }
#include "h_huge.c"
