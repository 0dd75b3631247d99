// included before everything else in instrumented sources: the templates of the standard library are instantiated
// (and so instrumented) there instead of being taken from the library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
