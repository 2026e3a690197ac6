#define MANY_HASHMAP
#include "h_many.inc"
