// utf8.h encode/decode, wcs(), wide-string Input, matcher wide text: exact inverses over all code points / byte strings.
#include "sym.h"
#include <reflex/utf8.h>
#include <reflex/input.h>
#include <reflex/matcher.h>
#include <vector>
typedef uint8_t B; using namespace reflex;
#define IT(c, a, b) ((int)sym_ite((c), (uint32_t)(a), (uint32_t)(b)))
static int seqlen(int c) { return IT(c < 0x80, 1, IT(c < 0x800, 2, IT(c < 0x10000, 3, 4))); }
static int byteAt(int c, int i) { // i-th byte of the standard encoding
  int n = seqlen(c), sh = (n - 1 - i) * 6; int lead = IT(n == 1, c, IT(n == 2, 0xC0 | c >> 6, IT(n == 3, 0xE0 | c >> 12, 0xF0 | c >> 18))); return i == 0 ? lead : 0x80 | (c >> (sh & 31) & 63); }
// reference decoder over t[0..n), terms only: returns code point or -1, length in *l
static int dec(const uint8_t *t, int n, int *l) { int b0 = n > 0 ? t[0] : 0, b1 = n > 1 ? t[1] : 0, b2 = n > 2 ? t[2] : 0, b3 = n > 3 ? t[3] : 0; B k1 = (b1 & 0xC0) == 0x80, k2 = (b2 & 0xC0) == 0x80, k3 = (b3 & 0xC0) == 0x80;
  int v2 = (b0 & 31) << 6 | (b1 & 63), v3 = (b0 & 15) << 12 | (b1 & 63) << 6 | (b2 & 63), v4 = (b0 & 7) << 18 | (b1 & 63) << 12 | (b2 & 63) << 6 | (b3 & 63);
  B ok2 = ((b0 & 0xE0) == 0xC0) & k1 & ((v2 >= 0x80) | (v2 == 0)); // U+0000 as C0 80 is documented (MUTF-8)
  ok2 &= (b0 != 0xC0) | (b1 == 0x80);
  B ok3 = ((b0 & 0xF0) == 0xE0) & k1 & k2 & (v3 >= 0x800), ok4 = ((b0 & 0xF8) == 0xF0) & k1 & k2 & k3 & (v4 >= 0x10000) & (v4 <= 0x10FFFF);
  *l = IT(b0 < 0x80, 1, IT(ok2, 2, IT(ok3, 3, IT(ok4, 4, 0)))); return IT(b0 < 0x80, b0, IT(ok2, v2, IT(ok3, v3, IT(ok4, v4, -1)))); }
static int cp(const char *nm, int lo = 0, int hi = 0x10FFFF) { int c; sym_make(&c, 4, nm); sym_assume((c >= lo) & (c <= hi)); return c; }
extern "C" int harness_jobs() { return 24; }
static void checkEnc(const std::string &s, size_t from, int c) { sym_assert(s.size() - from == (size_t)seqlen(c), "length of the encoding"); B ok = 1; for (size_t i = 0; i + from < s.size() && i < 4; ++i) ok &= (uint8_t)s[from + i] == (uint8_t)byteAt(c, i); sym_assert(ok, "bytes of the encoding"); }
static const wchar_t *W2(int a, int b, int n) { wchar_t *w = new wchar_t[n + 1]; if (n > 0) w[0] = a; if (n > 1) w[1] = b; w[n] = 0; return w; }
static std::string readAll(Input &in, size_t step) { std::string r; char buf[16]; for (int k = 0; k < 40; ++k) { size_t n = in.get(buf, step); sym_assert(n <= step, "get() returns at most the requested number of bytes"); if (!n) return r; r.append(buf, n); } sym_fail("input does not end"); return r; }
extern "C" void harness(int job) {
  if (job == 0) { int c = cp("c"); char *s = new char[seqlen(c)]; size_t l = reflex::utf8(c, s); sym_assert(l == (size_t)seqlen(c), "encoded length"); B ok = 1; for (size_t i = 0; i < l; ++i) ok &= (uint8_t)s[i] == (uint8_t)byteAt(c, i); sym_assert(ok, "encoded bytes are the standard UTF-8 encoding");
    const char *e; int d = reflex::utf8(s, &e); sym_assert(d == c && e == s + l, "decoding an encoding returns the code point and consumes exactly its bytes"); sym_out(l); return; }
  if (job == 1) { int c = cp("c", 0x110000, 0x7FFFFFFF); char s[8]; size_t l = reflex::utf8(c, s); sym_assert(l == sizeof(REFLEX_NONCHAR_UTF8) - 1 && !memcmp(s, REFLEX_NONCHAR_UTF8, l), "a value above U+10FFFF encodes as the replacement"); return; }
  if (job < 8) { int n = job - 2; uint8_t *t = new uint8_t[n + 1]; if (n) sym_make(t, n, "bytes"); t[n] = 0; for (int i = 0; i < n; ++i) sym_assume(t[i] != 0); if (!n) return; int l, want = dec(t, n, &l); const char *e; int c = reflex::utf8((const char*)t, &e); sym_out(c); size_t used = e - (const char*)t;
    sym_assert(c == IT(want < 0, REFLEX_NONCHAR, want), "decoding yields the code point, or the documented replacement if and only if the bytes are not valid UTF-8"); sym_assert((want < 0) | (used == (size_t)l), "decoding consumes exactly the sequence"); sym_assert(used >= 1 && used <= (size_t)n, "decoding stays inside the string"); sym_assert(reflex::utf8((const char*)t) == c, "decoding without end pointer"); return; }
  if (job < 13) { int n = job - 7; uint8_t *t = new uint8_t[n]; sym_make(t, n, "bytes"); uint8_t z[8]; for (int i = 0; i < n; ++i) z[i] = t[i]; for (int i = n; i < 8; ++i) z[i] = 0; std::wstring w = wcs((const char*)t, n); // exactly n bytes are readable
    const char *s = (const char*)z; size_t k = 0; B ok = 1; while (s < (const char*)z + n && k < 8) { int c = reflex::utf8(s, &s); ok &= k < w.size() && w[k] == c; ++k; } sym_assert(ok && k == w.size(), "wcs() is the sequence of decoded characters"); sym_out(w.size());
    std::wstring w2 = wcs(std::string((const char*)t, n)); sym_assert(w2 == w, "wcs() overloads agree"); return; }
  if (job < 16) { int a = cp("a", 1), b = cp("b", 1); sym_assume(((a < 0xD800) | (a > 0xDFFF)) & ((b < 0xD800) | (b > 0xDFFF))); std::wstring w; w.push_back(a); w.push_back(b); int step = job - 12; Input in = job == 13 ? Input(w.c_str()) : Input(w); size_t sz = in.size(); std::string s = readAll(in, step); size_t la = seqlen(a); 
    sym_assert(s.size() == la + seqlen(b), "wide string input delivers both characters"); sym_assert(sz == s.size(), "size() of a wide string input"); checkEnc(s.substr(0, la), 0, a); checkEnc(s, la, b); sym_assert(!in.good() && in.eof(), "end of wide input"); sym_assert(wcs(s) == w, "wcs() undoes wide string input"); return; }
  if (job < 19) { int step = (job - 16) * 2 + 1; int hi = cp("hi", 0xD800, 0xDBFF), lo = cp("lo", 0xDC00, 0xDFFF); int c = 0x10000 + ((hi & 0x3FF) << 10 | (lo & 0x3FF)); const wchar_t *w = W2(hi, lo, 2); Input in(w); size_t sz = in.size(); std::string s = readAll(in, step); sym_assert(sz == s.size(), "size() of a surrogate pair"); checkEnc(s, 0, c); return; }
  if (job < 21) { int a = cp("half", 0xD800, 0xDFFF), b = cp("b", 1, 0xFFFF); sym_assume((b < 0xD800) | (b > 0xDFFF)); if (job == 20) { const wchar_t *w = W2(a, b, 1); Input in(w); std::string s = readAll(in, 7); sym_assert(s == REFLEX_NONCHAR_UTF8, "an unpaired surrogate half becomes the replacement"); return; }
    const wchar_t *w = W2(a, b, 2); Input in(w); std::string s = readAll(in, 7); size_t n = sizeof(REFLEX_NONCHAR_UTF8) - 1; sym_assert(s.substr(0, n) == REFLEX_NONCHAR_UTF8, "an unpaired surrogate half becomes the replacement"); checkEnc(s, n, b); return; }
  if (job == 21) { // matcher wide text access
    int a = cp("a", 1), b = cp("b", 1); sym_assume(((a < 0xD800) | (a > 0xDFFF)) & ((b < 0xD800) | (b > 0xDFFF))); char t[8]; size_t n = reflex::utf8(a, t), m = n + reflex::utf8(b, t + n); static const Pattern p("(?s:.+)"); Matcher q(p, Input(t, m)); sym_assert(q.matches() != 0, "matches"); std::wstring w = q.wstr(); sym_assert(w.size() == 2 && w[0] == a && w[1] == b, "wstr() is the decoded text"); sym_assert((int)q.wchr() == a, "wchr() is the first character"); sym_assert(q.wsize() == 2, "wsize() counts characters"); sym_assert(q.wpair().second == w, "wpair()"); return; }
  if (job == 22) { int a; sym_make(&a, 4, "wide"); sym_assume((a > 0x10FFFF) | (a < 0)); Input in(W2(a, 0, 1)); std::string s = readAll(in, 7); sym_assert(s == REFLEX_NONCHAR_UTF8, "a wide character that is no code point becomes the replacement"); return; }
  { int a = cp("a"); char *s = new char[4]; size_t l = reflex::utf8(a, s); for (size_t k = 1; k < l; ++k) { char *u = new char[k + 1]; memcpy(u, s, k); u[k] = 0; const char *e; int c = reflex::utf8(u, &e); sym_assert(c == REFLEX_NONCHAR && e <= u + k, "a truncated sequence decodes to the replacement without reading past its end"); } } }
