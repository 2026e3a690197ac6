#define MANY_RESPOOL
#include "h_many.inc"
