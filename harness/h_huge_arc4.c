#define HUGE_ONLY { "arc4", scn_arc4, 1 }
#include "h_huge.c"
