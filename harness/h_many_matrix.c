#define MANY_MATRIX
#include "h_many.inc"
