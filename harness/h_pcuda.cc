#define REF_CUDA
#define PROGRAM "GALS_Advection.cu"
#define NO_ARGS
#include "h_prog.h"
