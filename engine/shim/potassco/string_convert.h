#ifndef VP_STRING_CONVERT_H
#define VP_STRING_CONVERT_H
#include <sstream>
#include <string>
namespace Potassco {
template <class T> bool string_cast(std::string const &s, T &out) {
    std::istringstream iss(s);
    T v;
    if (!s.empty() && s[0] == '-' && !std::is_signed<T>::value) return false;
    if (!(iss >> v)) return false;
    if (iss.peek() != std::char_traits<char>::eof()) return false;
    out = v;
    return true;
}
}
#endif
