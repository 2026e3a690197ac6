#define MANY_RBTREE
#include "h_many.inc"
