// Every standard-library template used by the code under test is instantiated
// (and hence instrumented) in our own objects.
#if defined(__cplusplus) && !defined(SX_NOEXTERN_H)
#define SX_NOEXTERN_H
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
