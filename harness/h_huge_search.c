#define HUGE_ONLY { "search", scn_search, 1 }, { "pattern", scn_pattern, 1 }
#include "h_huge.c"
