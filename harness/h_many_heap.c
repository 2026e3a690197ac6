#define MANY_HEAP
#include "h_many.inc"
