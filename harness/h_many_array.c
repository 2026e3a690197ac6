#define MANY_ARRAY
#include "h_many.inc"
