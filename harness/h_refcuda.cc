#define REF_CUDA
#include "h_ref.h"
