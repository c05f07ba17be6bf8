#define PROGRAM "GALS_Advection_OpenMP.cpp"
#include "h_prog.h"
