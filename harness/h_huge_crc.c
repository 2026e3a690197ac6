#define HUGE_ONLY { "crc", scn_crc, 1 }
#include "h_huge.c"
