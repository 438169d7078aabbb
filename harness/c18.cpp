// The matchers of other engines: ENG 0 StdEcmaMatcher, 1 StdPosixMatcher, 2 BoostPosixMatcher, 3 BoostPerlMatcher, 4 PCRE2Matcher, 5 PCRE2UTFMatcher (the options given to PCRE2). Oracle: a backtracking matcher over the regex syntax, Perl (priority) or POSIX (longest) rules.
#if ENG == 2 || ENG == 3
# define WITH_BOOST
#endif
#if ENG < 4
# include "enginert.h"
#endif
#include "sym.h"
#include <functional>
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#if ENG < 2
# include <reflex/stdmatcher.h>
#elif ENG < 4
# include <reflex/boostmatcher.h>
#else
# include <reflex/pcre2matcher.h>
#endif
#include "bt.h"
#if ENG >= 4
# include "pcre2stub.h"
#endif
#ifndef NT
#define NT 4
#endif
#if ENG == 0
typedef reflex::StdEcmaMatcher M0;
#elif ENG == 1
typedef reflex::StdPosixMatcher M0;
#elif ENG == 2
typedef reflex::BoostPosixMatcher M0;
#elif ENG == 3
typedef reflex::BoostPerlMatcher M0;
#elif ENG == 4
typedef reflex::PCRE2Matcher M0;
#else
typedef reflex::PCRE2UTFMatcher M0;
#endif
enum { POSIX = ENG == 1 || ENG == 2 };
// flags: L lazy or Perl-only (not for POSIX engines), S a shorter match is preferred (Boost: not delivered in pieces), U nullable (matches() only), A anchor ^ of lines, B word boundary, X not for std, N not for POSIX std
struct Case { const char *re, *al, *fl; };
static const Case cases[] = { { "(a)|(b)", "abc", "" }, { "(ab)|(a)|(c+)", "abc", "" }, { "(a)|(ab)|(b)", "abc", "S" }, { "(if)|([a-z]+)|( +)", "if x", "S" }, { "([a-z]+)|(if)|( )", "if x", "" }, { "a*b", "abc", "" }, { "(abc|a)(b)?", "abcx", "" }, { "(a|ab)(c|bc)?", "abcx", "S" }, { "x+?y|(x)", "xyz", "LS" }, { "(\\n)|([^\\n]+)", "a\nb ", "" },
  { "(a+)|(b)", "ab\nc", "" }, { "ab?c", "abc", "" }, { "(a(b)?)+c", "abc", "" }, { "[^a]b|(a)", "abc", "" }, { "(aa)|(aaa)", "ab", "S" }, { "(aaa)|(aa)", "ab", "" }, { "a{2}|(b{1,2})", "abc", "" }, { "(\\d+)|(\\w)", "1a_ ", "N" }, { "(\\s+)|(\\S)", "a \n", "N" }, { "^a|(b)", "a\nb", "A" }, { "\\ba|(b)", "ab ", "B" }, { "a\\b|(b)", "ab ", "BSC" }, { "a\\B|(b)", "ab ", "BSC" }, { "a(?=b)|(b)", "abc", "LSC" }, { "(a)|b", "abc", "G" }, { "abc|(bcd)", "abcd", "" }, { "a*", "ab", "U" }, { "(a*)(b?)", "abc", "U" }, { "", "ab", "U" }, { "(abca)|(b)", "abc", "" }, { "(a.c)|(b)", "ab\nc", "N" } };
static const int NC = sizeof(cases) / sizeof(*cases);
static const char *ctext; static int clen;
struct CM : M0 { int at, k, sz[3]; bool own; CM(const std::string &re) : M0(re, reflex::Input()), at(0), k(0), own(true) { sz[0] = sz[1] = sz[2] = 0; }
  size_t get(char *s, size_t m) override { int c = sz[k < 2 ? k : 2]; ++k; if (c == 0 || (size_t)c > m) c = m; if (c > clen - at) c = clen - at; memcpy(s, ctext + at, c); at += c; return c; } };
struct Chk { BT bt; std::string t; int pos; const Case &c; bool named; Chk(const Case &c) : bt(c.re, POSIX), pos(0), c(c), named(!strchr(c.fl, 'G')) { }
  void result(M0 &m, size_t r, int b, int e) { sym_out(r); sym_assert(r != 0, "a match is missed"); sym_assert(m.size() == (size_t)(e - b) && m.first() == (size_t)b, "the match is that of the engine's rules"); const char *s = m.begin(); for (int i = b; i < e; ++i) sym_assert(s[i - b] == t[i], "reported text is the input text"); groups(m, r, b, e); sym_assert(m.accept() == r, "accept() is the result");
    size_t ln = 1, col = 0; for (int i = 0; i < b; ++i) if (t[i] == '\n') { ++ln; col = 0; } else ++col; sym_assert(m.lineno() == ln && m.columno() == col, "line and column of the match"); sym_out(m.lineno()); sym_out(m.first()); sym_out(m.size()); sym_assert(m.at_bol() == (e == 0 || t[e - 1] == '\n'), "at_bol()"); }
  void groups(M0 &m, size_t r, int b, int e) { size_t want = 0; for (size_t g = 1; g < bt.cap.size() && !want; ++g) if (bt.cap[g].first >= 0) want = g; if (bt.cap.size() == 1) want = 1; if (!POSIX && want && (named || bt.cap.size() == 1)) { sym_assert(r == want, "the result is the index of the first group that matched"); for (size_t g = 1; g < bt.cap.size(); ++g) { std::pair<const char*,size_t> q = m[g]; if (bt.cap[g].first < 0) sym_assert(q.first == NULL, "m[n] of a group that did not match is NULL"); else sym_assert(q.first == m.begin() + (bt.cap[g].first - b) && q.second == (size_t)(bt.cap[g].second - bt.cap[g].first), "m[n] is the captured text"); }
      size_t first = want; if (bt.cap.size() > 1) { std::pair<size_t,const char*> id = m.group_id(); sym_assert(id.first == first, "group_id() is the first group that matched"); } }
    std::pair<const char*,size_t> q = m[0]; sym_assert(q.first == m.begin() && q.second == m.size(), "m[0] is the match"); sym_assert(m[bt.cap.size() + 3].first == NULL, "no such group"); }
  void scan(M0 &m) { for (int k = 0; k <= clen + 1; ++k) { int e = pos < (int)t.size() ? bt.match(t, pos, true) : -1; size_t r = m.scan(); if (e < 0) { sym_out(r); sym_assert(r == 0, "scan() reports a match where there is none"); sym_assert(m.at_end() == (pos >= (int)t.size()), "at_end()"); return; } result(m, r, pos, e); pos = e; } sym_fail("too many matches"); }
  void find(M0 &m) { for (int k = 0; k <= clen + 1; ++k) { int b = pos, e = -1; for (; b < (int)t.size(); ++b) if ((e = bt.match(t, b, true)) >= 0) break; size_t r = m.find(); if (e < 0) { sym_out(r); sym_assert(r == 0, "find() reports a match where there is none"); return; } result(m, r, b, e); pos = e; } sym_fail("too many matches"); }
  void split(M0 &m) { for (int k = 0; k <= clen + 2; ++k) { int b = pos, e = -1; for (; b < (int)t.size(); ++b) if ((e = bt.match(t, b, true)) >= 0) break; size_t r = m.split(); sym_out(r); sym_assert(r != 0, "split() ended without the final piece"); sym_out(m.size()); size_t want = e < 0 ? t.size() : b; sym_assert(m.size() == want - pos, "the piece reaches to the next match"); const char *s = m.begin(); for (size_t i = pos; i < want; ++i) sym_assert(s[i - pos] == t[i], "the piece is the input text");
      if (e < 0) { sym_assert(r == (size_t)M0::Const::EMPTY, "the final piece"); sym_assert(m.split() == 0, "split() returns 0 after the final piece"); return; } sym_assert(r != (size_t)M0::Const::EMPTY, "a piece before a match is not the final piece"); pos = e; } sym_fail("too many pieces"); }
  void matches(M0 &m) { int e = bt.match(t, 0, false); bool full = e == (int)t.size(); size_t r = m.matches(); sym_out(r != 0); sym_assert((r != 0) == full, "matches() decides whether the engine's match is the whole input"); if (full) { sym_assert(m.size() == (size_t)clen && m.first() == 0, "the match is the input"); sym_assert(m.matches() != 0, "matches() again"); } }
};
extern "C" int harness_jobs() { return NC * 4; }
extern "C" void harness(int job) {
  const Case &c = cases[job % NC]; int mode = job / NC; const char *fl = c.fl; bool S = strchr(fl, 'S'), U = strchr(fl, 'U'); if (POSIX && (strchr(fl, 'L') || strchr(fl, 'B'))) sym_stop(); if (U && mode < 3) sym_stop(); if (ENG == 5 && job % NC > 2) sym_stop(); if (ENG < 2 && (strchr(fl, 'A') || strchr(fl, 'X'))) sym_stop(); if (ENG == 1 && strchr(fl, 'N')) sym_stop();
  std::string re = c.re; if (ENG >= 4 && strchr(fl, 'A')) re = "(?m)" + re; sym_note(re.c_str()); 
  int n = sym_int(0, NT, "length"); char b[NT + 1]; if (n) sym_make(b, n, "text"); b[n] = 0; for (int i = 0; i < n; ++i) { bool ok = false; for (const char *a = c.al; *a; ++a) ok |= b[i] == *a; sym_assume(ok); } ctext = b; clen = n;
  Chk k(c); k.t.assign(b, n); sym_assert(!k.bt.bad, "reference parser accepts the pattern");
  bool pieces = !(S && (ENG == 2 || ENG == 3)); int how = sym_int(pieces && ENG >= 2 ? 0 : 1, 6, "how"); sym_out(how); M0 *m, *src = 0; CM *cm = 0; FILE *f = 0;
  switch (how) { case 0: m = cm = new CM(re); for (int i = 0; i < 3; ++i) cm->sz[i] = sym_int(0, i < 2 ? 2 : 1, "chunk"); break; case 1: m = new M0(re, reflex::Input(ctext, (size_t)n)); m->buffer(); break; case 2: { char *q = new char[n + 1]; memcpy(q, b, n); q[n] = 0; m = new M0(re, reflex::Input()); m->buffer(q, n + 1); break; } case 4: m = new M0(); m->pattern(re); m->input(reflex::Input(ctext, (size_t)n)); if (!pieces) m->buffer(); break; case 5: src = new M0(re); m = new M0(); m->pattern(*src); m->input(reflex::Input(ctext, (size_t)n)); if (!pieces) m->buffer(); break; case 6: src = new M0(re); m = (M0*)src->clone(); m->input(reflex::Input(ctext, (size_t)n)); if (!pieces) m->buffer(); break; default: m = new M0(re, reflex::Input(ctext, (size_t)n)); if (!pieces) m->buffer(); }
  switch (mode) { case 0: k.scan(*m); break; case 1: k.find(*m); break; case 2: k.split(*m); break; default: k.matches(*m); }
  delete m; delete src; }
