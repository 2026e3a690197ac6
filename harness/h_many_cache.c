#define MANY_CACHE
#include "h_many.inc"
