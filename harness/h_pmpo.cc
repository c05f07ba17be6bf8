#define PROGRAM "GALS_Advection_MPI_OpenMP.cpp"
#include "h_prog.h"
