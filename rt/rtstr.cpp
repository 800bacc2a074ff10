// Out-of-line members of std::string (symbolic build only; linked with --only-needed).
#include <string>
template class std::__cxx11::basic_string<char>;
