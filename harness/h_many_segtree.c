#define MANY_SEGTREE
#include "h_many.inc"
