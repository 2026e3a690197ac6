/* C30: what is left of the level macros below a compile-time ceiling */
#define BFDEV_LOGLEVEL_MAX 2
#include "h_text.c"
