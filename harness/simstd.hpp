// Has the templates of the standard library (strings, streams) compiled with the simulator, so that their accesses are seen.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
