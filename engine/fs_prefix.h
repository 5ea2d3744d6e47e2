// Forced include of every translation unit lowered to bitcode: instantiate the
// library templates here instead of relying on the copies in libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
