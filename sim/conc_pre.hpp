// forced include: std::string is instantiated (and instrumented) in the shared object, not taken from libstdc++
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
