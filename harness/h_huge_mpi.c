#define HUGE_ONLY { "mpi", scn_mpi, 1 }
#include "h_huge.c"
