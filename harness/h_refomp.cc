#include "h_ref.h"
