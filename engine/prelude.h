// Makes the bodies of std::string visible to the verifier (they are extern templates otherwise).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
