// Input from wide strings, strings and streams: delivery in requests of any size, size(), good(), eof(), copies.
#include "sym.h"
#include "istr.h"
#include <reflex/input.h>
#include <string>
#include <string.h>
using namespace reflex; typedef uint8_t B;
#ifndef NC
#define NC 3
#endif
enum { MX = 64 };
struct Out { B b[MX]; int n; Out() : n(0) { }
  void bad() { memcpy(b + n, REFLEX_NONCHAR_UTF8, sizeof(REFLEX_NONCHAR_UTF8) - 1); n += sizeof(REFLEX_NONCHAR_UTF8) - 1; }
  void ch(uint32_t c) { if (c < 0x80) b[n++] = c; else if (c < 0x800) { b[n++] = 0xC0 | c >> 6; b[n++] = 0x80 | (c & 63); } else if (c < 0x10000) { b[n++] = 0xE0 | c >> 12; b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } else if (c < 0x110000) { b[n++] = 0xF0 | c >> 18; b[n++] = 0x80 | (c >> 12 & 63); b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } else bad(); } };
static void drain(Input &a, const Out &o, bool eofAtEnd, bool sized) {
  int n = 0, how = sym_int(0, 4, "queries"); Input c; Input *in = &a; B got[MX + 8];
  for (int k = 0; k < 60; ++k) { 
    if (how == 1 || (how == 2 && k == 1)) { if (sized) sym_assert(in->size() == (size_t)(o.n - n), "size() is the number of bytes left"); }
    if (how == 3 && k == 1) { c = *in; in = &c; if (sized) sym_assert(in->size() == (size_t)(o.n - n), "size() is the number of bytes left"); }
    if (how == 4 && k == 1) { Input d(*in); c = d; in = &c; }
    if (eofAtEnd) { sym_assert(in->eof() == (n == o.n), "eof() is true when no bytes are left"); sym_assert(in->good() == (n < o.n), "good() is true while bytes are left"); } else if (n < o.n && in->eof()) sym_fail("eof() although bytes are left");
    if (how == 1 && k == 1) { int g = in->get(); if (g == EOF) { sym_assert(n == o.n, "get() returns EOF at the end only"); break; } if (n < MX) got[n++] = g; continue; }
    size_t want = k < 3 ? sym_int(1, 5, "request") : 16; char *p = new char[want]; size_t r = in->get(p, want); sym_assert(r <= want, "get() delivers at most the requested number of bytes"); if (r == 0) { delete[] p; break; }
    for (size_t i = 0; i < r && n < MX; ++i) got[n++] = p[i]; delete[] p; if (k == 59) sym_fail("input does not end"); }
  sym_assert(n == o.n, "number of delivered bytes"); B ok = 1; for (int i = 0; i < n && i < o.n; ++i) ok &= got[i] == o.b[i]; sym_assert(ok, "delivered bytes are the UTF-8 of the characters of the source"); for (int i = 0; i < n; ++i) sym_out(got[i]);
  sym_assert(in->get() == EOF, "end of file after the last character"); if (sized) sym_assert(in->size() == 0, "size() is zero at the end"); }
extern "C" int harness_jobs() { return 16; }
extern "C" void harness(int job) { Out o;
  if (job < 6) { int m = sym_int(0, NC, "units"); wchar_t *w = new wchar_t[m + 1]; if (m) sym_make(w, m * 4, "wide string"); w[m] = 0;
    // job 3..5: at least one surrogate
    for (int i = 0; i < m; ++i) { uint32_t c = w[i]; sym_assume(c != 0); if (job >= 3 && i == m - 2) sym_assume((c >= 0xD800) & (c < 0xDC00)); }
    for (int i = 0; i < m; ++i) { uint32_t c = w[i]; if ((c >= 0xD800) & (c < 0xE000)) { uint32_t d = w[i + 1]; if ((c < 0xDC00) & (d >= 0xDC00) & (d < 0xE000)) { o.ch(0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00)); ++i; } else o.bad(); } else o.ch(c); }
    if (job % 3 == 0) { Input in((const wchar_t*)w); sym_assert(in.assigned() && in.wstring() == w && !in.cstring() && !in.file() && !in.istream(), "accessors of a wide string input"); drain(in, o, true, true); in.clear(); sym_assert(!in.assigned() && in.eof() && !in.good() && in.size() == 0, "cleared input"); }
    else if (job % 3 == 1) { std::wstring ws(w, m); Input in(ws); drain(in, o, true, true); }
    else { std::wstring ws(w, m); Input in(&ws); Input e((const std::wstring*)NULL); sym_assert(!e.assigned() && e.get() == EOF, "no input"); drain(in, o, true, true); }
    delete[] w; }
  else if (job < 11) { int m = sym_int(0, 6, "bytes"); char *s = new char[m + 1]; if (m) sym_make(s, m, "string"); s[m] = 0; if (job == 6) for (int i = 0; i < m; ++i) sym_assume(s[i] != 0); for (int i = 0; i < m; ++i) o.b[o.n++] = s[i];
    if (job == 6) { Input in((const char*)s); sym_assert(in.assigned() && in.cstring() == s && !in.wstring(), "accessors of a string input"); drain(in, o, true, true); in = Input("ab"); sym_assert(in.get() == 'a' && in.get() == 'b' && in.get() == EOF, "assigned input"); }
    else if (job == 7) { char *q = new char[m ? m : 1]; memcpy(q, s, m); Input in(q, (size_t)m); drain(in, o, true, true); delete[] q; }
    else if (job == 8) { std::string t(s, m); Input in(t); drain(in, o, true, true); }
    else if (job == 9) { std::string t(s, m); Input in(&t); Input e((const std::string*)NULL), f((const char*)NULL); sym_assert(!e.assigned() && e.get() == EOF && !f.assigned() && f.get() == EOF, "no input"); drain(in, o, true, true); }
    else { Input in; sym_assert(!in.assigned() && in.get() == EOF && in.size() == 0 && in.eof() && !in.good(), "no input"); in = Input(s, (size_t)m); drain(in, o, true, true); }
    delete[] s; }
  else { int m = sym_int(0, 6, "bytes"), st = job - 11; char *s = new char[m + 1]; if (m) sym_make(s, m, "stream"); for (int i = 0; i < m; ++i) o.b[o.n++] = s[i]; MemBuf mb(s, m, st); std::istream is(&mb);
    if (st & 1) { Input in(is); sym_assert(in.assigned() && in.istream() == &is && !in.file(), "accessors of a stream input"); drain(in, o, false, true); } else { Input in(&is); drain(in, o, false, true); }
    delete[] s; } }
