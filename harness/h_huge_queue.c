#define HUGE_ONLY { "queue", scn_queue, 1 }
#include "h_huge.c"
