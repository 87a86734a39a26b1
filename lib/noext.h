// std::string and friends are instantiated in every translation unit, so that their code can be verified too
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
