// The engine of peglib.h, for units compiled with PEG_APART.
#define PEG_INLINE
#include "peglib.h"
