// Instantiates the std::string members that libstdc++ normally provides in its shared object.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
template class std::basic_string<char>;
