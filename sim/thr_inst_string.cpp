// The member functions of std::string that the instrumented library calls out of line, instrumented too.
#include <string>
template class std::basic_string<char>;
