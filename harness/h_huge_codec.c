#define HUGE_ONLY { "codec", scn_codec, 1 }
#include "h_huge.c"
