// members of std::string that libstdc++ keeps in its shared library: instantiated from its headers, so the verifier sees their bodies
#include <string>
template class std::allocator<char>; template class std::basic_string<char>;
