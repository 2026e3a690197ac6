#define MANY_SORT
#include "h_many.inc"
