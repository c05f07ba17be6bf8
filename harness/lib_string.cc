// The parts of libstdc++ that headers declare `extern template`, instantiated for the symbolic build.
#include <memory>
#include <string>
template class std::allocator<char>;
template class std::basic_string<char>;
template std::string std::operator+(const std::string &, const std::string &);
template std::string std::operator+(const std::string &, const char *);
template std::string std::operator+(const char *, const std::string &);
