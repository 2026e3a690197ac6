#define HUGE_ONLY { "argv", scn_argv, 1 }, { "argv-long", scn_argv_long, 1 }
#include "h_huge.c"
