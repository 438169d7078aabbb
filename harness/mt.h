// Shared matcher-test scaffolding: text templates with symbolic bytes, and the search contracts.
#pragma once
#include "ref.h"
#include <reflex/matcher.h>
// text templates: '\1' one arbitrary byte; "\2Nc" N copies of c (N is the character code, e.g. '(' = 40); "\3ab" a byte that is a or b; "\4abc" a byte that is a, b or c; "\5abcd" one of four
struct Text { char *t; int n;
  explicit Text(const char *tm) { n = 0; for (const char *p = tm; *p; ++p) { if (*p == 2) { n += (unsigned char)p[1]; p += 2; } else { if (*p == 3) p += 2; else if (*p == 4) p += 3; else if (*p == 5) p += 4; ++n; } }
    t = new char[n + 1]; t[n] = 0; int ns = 0; for (const char *p = tm; *p; ++p) if (*p == 1 || (*p >= 3 && *p <= 5)) ++ns, p += *p == 3 ? 2 : *p == 4 ? 3 : *p == 5 ? 4 : 0; else if (*p == 2) p += 2;
    char *s = new char[ns + 1]; if (ns) sym_make(s, ns, "text"); int i = 0, k = 0;
    for (const char *p = tm; *p; ++p) { if (*p == 1) t[i++] = s[k++]; else if (*p == 2) { for (int q = (unsigned char)p[1]; q > 0; --q) t[i++] = p[2]; p += 2; } else if (*p == 3) { sym_assume((s[k] == p[1]) | (s[k] == p[2])); t[i++] = s[k++]; p += 2; } else if (*p == 4) { sym_assume((s[k] == p[1]) | (s[k] == p[2]) | (s[k] == p[3])); t[i++] = s[k++]; p += 3; } else if (*p == 5) { sym_assume((s[k] == p[1]) | (s[k] == p[2]) | (s[k] == p[3]) | (s[k] == p[4])); t[i++] = s[k++]; p += 4; } else t[i++] = *p; } } };
struct Case { const char *re, *opt, *text; };
static const char *mtText = 0; // when set, find/scan results are also compared with the input bytes
static inline void checkText(reflex::AbstractMatcher &m, const char *t, size_t b, size_t l) { const char *s = m.begin(); for (size_t i = 0; i < l; ++i) sym_assert(s[i] == t[b + i], "reported text is the input text"); }
enum Mode { M_SCAN, M_FIND, M_SPLIT, M_MATCH };
static int mtIter = 0; // 0: call the functor; 1, 2: use its iterator with ++it and it++; 3: a const_iterator
struct Next { reflex::AbstractMatcher::Operation &op; reflex::AbstractMatcher::iterator it; reflex::AbstractMatcher::const_iterator ct; bool first; Next(reflex::AbstractMatcher::Operation &op) : op(op), first(true) { }
  size_t operator()() { if (!mtIter) return op();
    if (mtIter == 3) { if (first) ct = op.cbegin(); else ++ct; first = false; return ct == op.cend() ? 0 : (*ct).accept(); }
    if (first) it = op.begin(); else if (mtIter == 1) ++it; else { reflex::AbstractMatcher::iterator o = it++; if (!(o != op.end())) sym_fail("the value of it++ is the iterator before"); } first = false; return it != op.end() ? it->accept() : 0; } };
static inline void checkScan(reflex::Matcher &m, Expect &x, int n, int pos = 0) {
  Next next(m.scan); for (int k = 0;; ++k) { size_t r = next(); sym_out(r);
    if (!r) { sym_assert(x.none(pos), "scan() returned 0 although a rule matches here"); break; }
    size_t b = m.first(), l = m.size(); sym_out(b); sym_out(l);
    sym_assert(r <= (size_t)x.R && l > 0 && b == (size_t)pos && b + l <= (size_t)n, "scan() match starts where the previous one ended");
    sym_assert(x.bestRule(r - 1, b, b + l), "scan() returned the longest match and the first rule");
    sym_assert(m.accept() == r, "accept() is the returned rule");
    if (mtText) checkText(m, mtText, b, l);
    pos = b + l; if (k > n) sym_fail("more scan() results than input bytes"); } }
static inline void checkFind(reflex::Matcher &m, Expect &x, int n, int pos = 0) {
  Next next(m.find); for (int k = 0;; ++k) { size_t r = next(); sym_out(r);
    if (!r) { sym_assert(x.noneFrom(pos, n), "find() returned 0 although a match is left"); break; }
    size_t b = m.first(), l = m.size(); sym_out(b); sym_out(l);
    sym_assert(r <= (size_t)x.R && l > 0 && b >= (size_t)pos && b + l <= (size_t)n, "find() match lies after the previous one");
    sym_assert(x.noneFrom(pos, b), "find() skipped an earlier match");
    sym_assert(x.bestRule(r - 1, b, b + l), "find() returned the longest match and the first rule");
    if (mtText) checkText(m, mtText, b, l);
    pos = b + l; if (k > n) sym_fail("more find() results than input bytes"); } }
static inline void checkSplit(reflex::Matcher &m, Expect &x, const char *t, int n) {
  for (int i = 0; i <= n; ++i) if (x.any[i * (n + 1) + i]) { sym_stop(); return; } // separators that can be empty are outside the property
  int pos = 0;
  Next next(m.split); for (int k = 0;; ++k) { size_t r = next(); sym_out(r); if (!r) { sym_fail("split() ended without the final piece"); break; }
    size_t b = m.first(), l = m.size(); sym_out(b); sym_out(l); sym_assert(b == (size_t)pos && b + l <= (size_t)n, "split piece starts after the previous separator"); checkText(m, t, b, l);
    if (r == reflex::Matcher::Const::EMPTY) { sym_assert(b + l == (size_t)n, "the final piece reaches the end of input"); sym_assert(x.noneFrom(pos, n), "the final piece contains no separator");
      sym_assert(m.split() == 0, "split() returns 0 after the final piece"); break; }
    sym_assert(r <= (size_t)x.R, "rule number"); sym_assert(x.noneFrom(pos, b + l), "a piece contains no separator");
    // length of separator: the longest match at b + l; continue where the next piece starts
    int e = -1; for (int j = b + l + 1; j <= n; ++j) if (x.bestRule(r - 1, b + l, j)) { e = j; break; }
    sym_assert(e >= 0, "the separator after a piece is a longest match of the reported rule"); if (e < 0) break; pos = e; if (k > n + 1) sym_fail("too many pieces"); } }
