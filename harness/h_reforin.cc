#include "h_refinit.h"
