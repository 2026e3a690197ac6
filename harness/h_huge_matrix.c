#define HUGE_ONLY { "matrix", scn_matrix, 1 }
#include "h_huge.c"
