#if VP_V == 2
#include "fwd2.h"
#else
#include "fwd3.h"
#endif
