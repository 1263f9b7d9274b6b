// Included before everything else in instrumented builds: std::string is instantiated in the program,
// so that the compiler's instrumentation reaches it (libstdc++ itself has none).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
