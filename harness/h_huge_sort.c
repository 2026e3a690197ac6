#define HUGE_ONLY { "sort", scn_sort, 1 }, { "bsearch", scn_bsearch, 1 }
#include "h_huge.c"
