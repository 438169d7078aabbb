// A C++ input stream over memory that can be executed symbolically (the templates are instantiated here; see rt/symrt.cpp for the locale and ios_base stand-ins).
#pragma once
#include <istream>
template class std::basic_ios<char>; template class std::basic_streambuf<char>; template class std::basic_istream<char>;
struct MemBuf : std::streambuf { // delivers n bytes, step bytes at a time
  char *b, *e; size_t step; MemBuf(char *p, size_t n, size_t s = 0) : b(p), e(p + n), step(s) { setg(p, p, s && s < n ? p + s : e); }
  int_type underflow() { if (gptr() < egptr()) return (unsigned char)*gptr(); if (egptr() == e) return -1; char *q = egptr() + step; if (q > e) q = e; setg(b, egptr(), q); return (unsigned char)*gptr(); }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) { char *p = (w == std::ios_base::beg ? b : w == std::ios_base::cur ? gptr() : e) + o; if (p < b || p > e) return pos_type(off_type(-1)); setg(b, p, p < egptr() ? egptr() : p); return pos_type(p - b); }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) { return seekoff(off_type(p), std::ios_base::beg, m); } };
