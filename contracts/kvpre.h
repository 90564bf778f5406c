// forced first include of every extraction: makes the library templates used by the code under
// contract (std::string, ...) available as bodies instead of as external symbols
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
