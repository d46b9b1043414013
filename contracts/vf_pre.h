// forced include (IR only): instantiate the std::string / stream members used, so that they are verified code, not externals
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
