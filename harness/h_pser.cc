#define PROGRAM "GALS_Advection.cpp"
#define NO_ARGS
#include "h_prog.h"
