#define REF_CUDA
#include "h_refinit.h"
