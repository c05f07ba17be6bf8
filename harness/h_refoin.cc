#define REF_OLD
#include "h_refinit.h"
