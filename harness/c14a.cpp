// Everything that reads the current match: accessors, conversions, comparisons, iterators; texts of arbitrary bytes (NUL included).
#include "mt.h"
#include "fuzzymatcher.h"
#ifndef NT
#define NT 4
#endif
#ifndef NS
#define NS 3
#endif
struct CM : reflex::Matcher { const char *t; int n, at, c; CM(reflex::Pattern &p, const char *t, int n, int c) : reflex::Matcher(p, reflex::Input()), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c && m > (size_t)c) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
// strict UTF-8 (RFC 3629): number of characters and their codes, or -1
static int wide(const char *s, int n, int *w) { int k = 0; for (int i = 0; i < n; ++k) { int c = (uint8_t)s[i], l = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0; if (!l || i + l > n) return -1;
    int v = l == 1 ? c : c & (0xff >> (l + 1)); for (int j = 1; j < l; ++j) { int d = (uint8_t)s[i + j]; if ((d & 0xc0) != 0x80) return -1; v = v << 6 | (d & 0x3f); }
    if ((l == 3 && v < 0x800) || (l == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return -1; w[k] = v; i += l; } return k; }
template<class M> static void access(M &m, size_t rule, const char *t, int n, int b, int l) {
  sym_assert(m.accept() == rule && (size_t)m == rule && m == rule && m == (int)rule && !(m != rule) && !(m != (int)rule) && m != rule + 1 && !(m == 0), "accept() and comparison with a rule number");
  sym_assert(m.size() == (size_t)l && m.first() == (size_t)b && m.last() == (size_t)(b + l) && m.end() - m.begin() == l, "first(), last(), size()");
  const char *x = m.begin(); for (int i = 0; i < l; ++i) sym_assert(x[i] == t[b + i], "begin()");
  std::pair<const char*,size_t> c = m[0]; sym_assert(c.first == m.begin() && c.second == (size_t)l, "[0] is the whole match");
  sym_assert(l == 0 || (char)m.chr() == t[b], "chr() is the first byte");
  std::string s = m.str(); sym_assert(s.size() == (size_t)l, "str() has the size of the match"); for (int i = 0; i < l; ++i) sym_assert(s[i] == t[b + i], "str() is the match");
  std::pair<size_t,std::string> pr = m.pair(); sym_assert(pr.first == rule && pr.second.size() == (size_t)l && memcmp(pr.second.data(), t + b, l) == 0, "pair()");
  std::pair<size_t,std::string> pc = m; sym_assert(pc.first == rule && pc.second.size() == (size_t)l, "conversion to a pair");
  int w[NT + 1], k = wide(t + b, l, w);
  if (k >= 0) { sym_assert(m.wsize() == (size_t)k, "wsize() is the number of characters"); if (l > 0) sym_assert(m.wchr() == w[0], "wchr() is the first character");
    std::wstring v = m.wstr(); sym_assert(v.size() == (size_t)k, "wstr() has as many characters"); if (v.size() == (size_t)k) for (int i = 0; i < k; ++i) sym_assert((int)v[i] == w[i], "wstr() is the match");
    std::pair<size_t,std::wstring> wp = m.wpair(); sym_assert(wp.first == rule && wp.second == v, "wpair()"); }
  // comparison with strings of any length and contents, in memory that ends with their terminator
  int q = sym_int(0, NS, "length"); char *r = (char*)malloc(q + 1); if (q) sym_make(r, q, "rhs"); r[q] = 0; for (int i = 0; i < q; ++i) sym_assume(r[i] != 0);
  int eq = q == l; for (int i = 0; i < q && i < l; ++i) eq &= r[i] == t[b + i];
  sym_assert((m == r) == eq, "== const char*"); sym_assert((m != r) == !eq, "!= const char*");
  char z[NS + 1]; if (q) sym_make(z, q, "rhs2"); std::string u(z, q); int e2 = q == l; for (int i = 0; i < q && i < l; ++i) e2 &= z[i] == t[b + i];
  sym_assert((m == u) == e2, "== std::string"); sym_assert((m != u) == !e2, "!= std::string");
  const char *y = m.text(); for (int i = 0; i < l; ++i) sym_assert(y[i] == t[b + i], "text()"); sym_assert(y[l] == 0, "text() is terminated");
  sym_assert(m == u ? e2 : !e2, "== after text()"); sym_assert(m.str().size() == (size_t)l && m.size() == (size_t)l, "size after text()"); free(r); }
static const char *pats[] = { "(?s).+", "[^b]+|b", "[\\x00-\\x60]{1,2}|[\\x61-\\xff]+" }; // every non-empty text is scanned by these
extern "C" int harness_jobs() { return 3 * 3 * 2 * 2; }
extern "C" void harness(int job) {
  int pi = job % 3, in = job / 3 % 3, it = job / 9 % 2, fz = job / 18 % 2; int n = sym_int(0, NT, "n"); char *t = (char*)malloc(n + 1); if (n) sym_make(t, n, "text"); t[n] = 0;
  sym_note(pats[pi]); reflex::Pattern p(pats[pi], "r"); 
  if (fz) { reflex::FuzzyMatcher m(p, 0, reflex::Input(t, n)); size_t r = m.find(); int b = m.first(), l = m.size(); if (!r) return; sym_out(r); sym_out(l); sym_assert(b + l <= n, "in the text"); access(m, r, t, n, b, l); return; }
  CM m(p, t, n, in == 0 ? 1 : in == 1 ? 3 : 0); char *bf = 0; if (in == 2) { bf = (char*)malloc(n + 1); memcpy(bf, t, n); bf[n] = 0; m.buffer(bf, n + 1); }
  int pos = 0, k = 0, pick = sym_int(0, 1, "second match");
  if (it) { for (reflex::AbstractMatcher::iterator i = m.scan.begin(); i != m.scan.end(); ++i) { sym_assert(i->first() == (size_t)pos, "iterator position"); int l = i->size(); if (k == pick) access(*i, i->accept(), t, n, pos, l); pos += l; ++k; if (k > n) sym_fail("more matches than bytes"); } }
  else for (;;) { size_t r = m.scan(); sym_out(r); if (!r) break; int l = m.size(); sym_out(l); sym_assert(m.first() == (size_t)pos && l > 0 && pos + l <= n, "scan() position"); if (k == pick) access(m, r, t, n, pos, l); pos += l; if (++k > n) sym_fail("more matches than bytes"); }
  sym_assert(pos == n, "the input is matched to its end"); sym_assert(m.at_end(), "at_end()"); free(t); }
