#define HUGE_ONLY { "digest", scn_digest, 1 }
#include "h_huge.c"
