#define PROGRAM "GALS_Advection_MPI.cpp"
#include "h_prog.h"
