#define MANY_RADIX
#include "h_many.inc"
