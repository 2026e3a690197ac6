#define HUGE_ONLY { "bitmap", scn_bitmap, 1 }
#include "h_huge.c"
