#define MANY_SKIPLIST
#include "h_many.inc"
