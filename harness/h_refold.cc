// C25: the Hermite patch of OldSerialCode
#define REF_OLD
#include "h_ref.h"
