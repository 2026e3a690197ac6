/* C21, portable fallbacks. */
#define GENERIC
#include "h_bits.c"
