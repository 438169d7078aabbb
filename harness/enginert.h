// std::regex and Boost.Regex use these facets and number conversions; in symx they are those of rt/symre.cpp, natively those of libstdc++
#pragma once
#include <cwctype>
#include <bits/localefwd.h>
namespace std { template<> const ctype<char>& use_facet<ctype<char> >(const locale&); template<> inline const ctype<char>& use_facet<const ctype<char> >(const locale& l) { return use_facet<ctype<char> >(l); } template<> const collate<char>& use_facet<collate<char> >(const locale&); template<> const messages<char>& use_facet<messages<char> >(const locale&); template<> bool has_facet<messages<char> >(const locale&) noexcept; }
#include <regex>
static int engine_digit(char c, int radix) { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return v < radix ? v : -1; }
template<> int std::__cxx11::regex_traits<char>::value(char c, int radix) const { return engine_digit(c, radix); }
#ifdef WITH_BOOST
#include <boost/regex.hpp>
namespace boost { template<> std::intmax_t cpp_regex_traits<char>::toi(const char *&p, const char *e, int radix) const { int v = engine_digit(*p, radix); if (p >= e || v < 0) return -1; int r = 0; while (p < e && (v = engine_digit(*p, radix)) >= 0) { r = r * radix + v; ++p; } return r; } }
#endif
