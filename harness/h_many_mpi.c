#define MANY_MPI
#include "h_many.inc"
