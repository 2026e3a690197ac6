#define MANY_FSM
#include "h_many.inc"
