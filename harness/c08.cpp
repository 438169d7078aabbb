// utf8(a, b): the regex generated for a range of code points denotes exactly the UTF-8 encodings of the range.
#include "mt.h"
#include <reflex/utf8.h>
#ifndef MODE
#define MODE 0
#endif
#ifndef PAIRS
#define PAIRS 300
#endif
// is t[0..n) the standard encoding of a code point, and of which (surrogates count as "other")
static void decode(const uint8_t *t, int n, uint8_t &ok, uint8_t &sur, uint32_t &cp) { cp = 0; ok = 0; sur = 0; uint32_t c0 = t[0]; auto k = [&](int i) -> uint8_t { return (t[i] & 0xC0) == 0x80; };
  if (n == 1) { ok = c0 < 0x80; cp = c0; } else if (n == 2) { ok = ((c0 & 0xE0) == 0xC0) & k(1); cp = (c0 & 31) << 6 | (t[1] & 63); ok &= cp >= 0x80; }
  else if (n == 3) { ok = ((c0 & 0xF0) == 0xE0) & k(1) & k(2); cp = (c0 & 15) << 12 | (uint32_t)(t[1] & 63) << 6 | (t[2] & 63); ok &= cp >= 0x800; sur = ok & (cp >= 0xD800) & (cp <= 0xDFFF); }
  else if (n == 4) { ok = ((c0 & 0xF8) == 0xF0) & k(1) & k(2) & k(3); cp = (c0 & 7) << 18 | (uint32_t)(t[1] & 63) << 12 | (uint32_t)(t[2] & 63) << 6 | (t[3] & 63); ok &= (cp >= 0x10000) & (cp <= 0x10FFFF); } }
// interpreter of the generated regexes: characters, \xHH \0ooo \ooo, [x-y] [xy], '.', groups, alternation
struct Rx { const char *p; const uint8_t *t; int n; bool bad; B ord = 1; typedef std::vector<B> V; // V[i*(n+1)+j]
  V mk() { return V((n + 1) * (n + 1), 0); }
  uint8_t hexd(char c) { uint8_t u = c; return u - (uint8_t)sym_ite(u >= 'a', 'a' - 10, '0'); }
  uint8_t chr() { if (*p == '\\') { ++p; if (*p == 'x') { uint8_t a = hexd(p[1]), b = hexd(p[2]); p += 3; return a * 16 + b; } if (p[0] == '0' && p[1] >= '0' && p[1] <= '7' && p[2] >= '0' && p[2] <= '7' && p[3] >= '0' && p[3] <= '7') ++p; uint8_t v = (p[0] - '0') * 64 + (p[1] - '0') * 8 + (p[2] - '0'); p += 3; return v; } return *p++; }
  V set(uint8_t lo, uint8_t hi) { V v = mk(); for (int i = 0; i < n; ++i) v[i * (n + 1) + i + 1] = (t[i] >= lo) & (t[i] <= hi); return v; }
  V atom() { if (*p == '(') { ++p; if (*p == '?') { if (p[1] != ':') bad = true; p += 2; } V v = alt(); if (*p == ')') ++p; else bad = true; return v; }
    if (*p == '.') { ++p; V v = mk(); for (int i = 0; i < n; ++i) v[i * (n + 1) + i + 1] = t[i] != '\n'; return v; }
    if (*p == '[') { ++p; uint8_t a = chr(); if (*p == ']') { ++p; return set(a, a); } if (*p == '-') { ++p; uint8_t b = chr(); bad |= false; ord &= a <= b; if (*p == ']') ++p; else bad = true; return set(a, b); } uint8_t b = chr(); if (*p == ']') ++p; else bad = true; V x = set(a, a), y = set(b, b); for (size_t i = 0; i < x.size(); ++i) x[i] |= y[i]; return x; }
    if (*p == 0 || *p == ')' || *p == '|') { bad = true; return mk(); }
    uint8_t a = chr(); return set(a, a); }
  V seq() { V v = atom(); while (*p && *p != ')' && *p != '|') { V w = atom(), r = mk(); for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) { B o = 0; for (int k = i; k <= j; ++k) o |= v[i * (n + 1) + k] & w[k * (n + 1) + j]; r[i * (n + 1) + j] = o; } v = r; } return v; }
  V alt() { V v = seq(); while (*p == '|') { ++p; V w = seq(); for (size_t i = 0; i < v.size(); ++i) v[i] |= w[i]; } return v; } };
static const int bd[] = { 0, 9, 10, '!', '-', '[', '^', 'z', '{', 0x7e, 0x7f, 0x80, 0x81, 0xbe, 0xbf, 0xc0, 0xff, 0x13f, 0x140, 0x7bf, 0x7c0, 0x7fe, 0x7ff, 0x800, 0x801, 0x83f, 0x840, 0xfbf, 0xfff, 0x1000, 0x103f, 0x1040, 0x1234, 0xbfff, 0xc000, 0xcfff, 0xd7ff, 0xe000, 0xf03f, 0xffbf, 0xffc0, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x12345, 0x3efff, 0x3ffff, 0x40000, 0x4003f, 0xabcde, 0xfffff, 0x100000, 0x10f000, 0x10ffbf, 0x10ffc0, 0x10fffe, 0x10ffff };
static const int NB = sizeof(bd) / sizeof(*bd);
static const char escs[] = { 'x', '0', '\0' };
#ifndef NESC
#define NESC 1
#endif
// MODE 3: as MODE 0 with the bits above the low 12 of 3 and 4-byte bounds fixed per job
static const int h3[] = { 0, 1, 3, 4, 9, 0xc, 0xe, 0xf }, h4[] = { 0x10, 0x11, 0x1f, 0x2a, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x10e, 0x10f };
extern "C" int harness_jobs() { return MODE == 3 ? PAIRS : MODE == 0 ? 10 * 8 * NESC : MODE == 1 ? 2 : PAIRS; }
extern "C" void harness(int job) {
  if (MODE == 0 || MODE == 3) { // every pair of bounds: encoded lengths and text length fixed by the job
    static const int lo[] = { 0, 0x80, 0x800, 0x10000 }, hi[] = { 0x7f, 0x7ff, 0xffff, 0x10ffff }; int q = MODE == 3 ? 9 - job % 10 : 9 - job / 8 % 10, z = 0, la = 0, lb = 0; for (la = 0; la < 4; ++la) { for (lb = la; lb < 4; ++lb) if (z++ == q) goto found; } found:
    char esc = MODE == 3 ? escs[job % 3] : escs[job / 80]; int a, b; sym_make(&a, 4, "a"); sym_make(&b, 4, "b"); sym_assume((a >= lo[la]) & (a <= hi[la]) & (b >= lo[lb]) & (b <= hi[lb]) & (a <= b)); sym_assume(((a < 0xD800) | (a > 0xDFFF)) & ((b < 0xD800) | (b > 0xDFFF)));
    if (MODE == 3) { uint32_t s = job / 10 * 2654435761u + job * 77u + 5u; auto r = [&](uint32_t k) { s = s * 1664525u + 1013904223u; return (s >> 12) % k; }; int x = la == 2 ? r(8) : la == 3 ? r(15) : 0, y = lb == 2 ? r(8) : lb == 3 ? r(15) : 0; if (la == lb) { if (r(3) == 0) y = x; else if (r(2) && x + 1 < (la == 2 ? 8 : 15)) y = x + 1; if (x > y) { int z = x; x = y; y = z; } } if (la >= 2) sym_assume(a >> 12 == (la == 2 ? h3[x] : h4[x])); if (lb >= 2) sym_assume(b >> 12 == (lb == 2 ? h3[y] : h4[y])); }
    else {
    sym_assume(((a & 63) == 0) == (job & 1)); sym_assume(((b & 63) == 63) == (job >> 1 & 1)); sym_assume((la == 3 ? a >> 18 == b >> 18 : lb == 3 ? (b >> 6 & 63) == 63 : lb == 2 ? b >> 6 & 1 : b & 1) == (job >> 2 & 1)); }
    uint8_t t[4]; sym_make(t, 4, "text"); const char *par = job % 3 ? "(?:" : "("; std::string re1 = reflex::utf8(a, b, esc, par, true), re2 = reflex::utf8(a, b, esc, par, false); B miss = 0, more = 0;
    for (int n = 1; n <= 4; ++n) { uint8_t ok, sur; uint32_t cp; decode(t, n, ok, sur, cp); B in = ok & (cp >= (uint32_t)a) & (cp <= (uint32_t)b);
      for (int strict = 0; strict < 2; ++strict) { Rx x; x.p = strict ? re1.c_str() : re2.c_str(); x.t = t; x.n = n; x.bad = false; Rx::V v = x.alt(); sym_assert(!x.bad && *x.p == 0, "the regex is well formed"); B m = v[n]; miss |= (x.ord ^ 1) | in & (m ^ 1); more |= strict ? m & (in ^ 1) & (sur ^ 1) : m & (in ^ 1) & (sur ^ 1) & ok; } }
    sym_assert(miss ^ 1, "an encoding of a code point in the range is not matched"); sym_assert(more ^ 1, "a byte string that encodes no code point of the range is matched"); }
  else if (MODE == 1) { int a, b; sym_make(&a, 4, "a"); sym_make(&b, 4, "b"); sym_assume((a >= 0) & (a <= b) & (b <= 255)); uint8_t t; sym_make(&t, 1, "text"); int e = sym_int(0, 2, "escape"); std::string re = reflex::latin1(a, b, escs[e], job == 0); std::string w = job == 0 ? re : "[" + re + "]"; bool one = false; if (job == 1 && a == b) w = re, one = true; (void)one;
    Rx x; x.p = w.c_str(); x.t = &t; x.n = 1; x.bad = false; Rx::V v = x.alt(); sym_assert(!x.bad && *x.p == 0, "the regex is well formed"); sym_assert(v[1] == ((t >= a) & (t <= b)), "latin1(a, b) denotes exactly a..b"); }
  else { // concrete bounds, through the pattern compiler and the matcher
    uint32_t s = job * 2654435761u + 99u; auto r = [&](uint32_t k) { s = s * 1664525u + 1013904223u; return (s >> 12) % k; }; int a = bd[r(NB)], b = bd[r(NB)]; if (r(3) == 0) { a = r(0x110000); b = r(2) ? a + r(0x2000) : r(0x110000); } if (r(8) == 0) b = a; if (a > b) { int z = a; a = b; b = z; } if (b > 0x10ffff) b = 0x10ffff; auto fix = [](int c) { return c >= 0xD800 && c <= 0xDFFF ? c - 0x1000 : c; }; a = fix(a); b = fix(b); if (a > b) b = a;
    bool strict = r(2); char esc = r(2) ? 'x' : '0'; std::string re = reflex::utf8(a, b, esc, r(2) ? "(?:" : "(", strict); char note[64]; snprintf(note, sizeof note, "U+%x..U+%x strict=%d", a, b, strict); sym_note((note + (" " + re)).c_str()); if (r(3) == 0) re = "(" + re + ")";
    reflex::Pattern p(re, "r"); int n = sym_int(1, 4, "text length"); uint8_t t[4]; sym_make(t, n, "text"); uint8_t ok, sur; uint32_t cp; decode(t, n, ok, sur, cp); sym_assume(sur ^ 1); if (!strict) sym_assume(ok);
    B in = ok & (cp >= (uint32_t)a) & (cp <= (uint32_t)b); reflex::Matcher m(p, reflex::Input((const char*)t, (size_t)n)); size_t g = m.matches(); sym_out(g != 0); if (g) sym_assert(in, "a byte string that encodes no code point of the range is matched"); else sym_assert(in ^ 1, "an encoding of a code point in the range is not matched"); } }
