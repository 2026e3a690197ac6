#define MANY_MEMALLOC
#include "h_many.inc"
