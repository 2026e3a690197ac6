#define MANY_BTREE
#include "h_many.inc"
