// Bodies of library templates that libstdc++ only declares (extern template): used when no model covers a function.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <cstring>
#include <algorithm>
template class std::basic_string<char>;
