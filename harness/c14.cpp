// Sequences of text-access and repositioning calls against an explicit model of the (edited) input stream.
#include "mt.h"
#include "gen.h"
#ifndef JOBS
#define JOBS 144
#endif
#ifndef NSY
#define NSY 3
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef FIRST
#define FIRST 0 // number of leading operations fixed by the job
#endif
static const char *pats[] = { "a+", "ab?|b", "[^\\n]+", "a|\\n", "(?m)^[ab]+|[ab\\n]", "\\<a|b", "ab|ba|a", "[a-c]+\\n?", "(\\xc3\\xa9)+|b", "b\\>|." };
static const int NP = sizeof(pats) / sizeof(*pats);
struct CM : reflex::Matcher { const char *t; int n, at, c; CM(reflex::Pattern &p, const char *t, int n, int c) : reflex::Matcher(p, reflex::Input()), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c && m > (size_t)c) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
struct Model { char s[200]; int n, cur, tb, te; bool valid, more, edited, dirty; 
  void ins(char c) { for (int i = n; i > cur; --i) s[i] = s[i - 1]; s[cur] = c; ++n; valid = false; edited = dirty = true; } };
static Expect *X; static int bolAt = -1; static bool back; // what precedes put-back characters is not defined
static Model M;
static void checkCur(reflex::Matcher &m, int how) {
  if (!M.valid || how == 0) return;
  sym_assert(m.size() == (size_t)(M.te - M.tb) && m.end() - m.begin() == M.te - M.tb, "size() is the text length");
  const char *x = how == 1 ? m.begin() : m.text(); for (int i = M.tb; i < M.te; ++i) sym_assert(x[i - M.tb] == M.s[i], "the text is the matched bytes");
  if (how == 2) sym_assert(x[M.te - M.tb] == 0, "text() is terminated"); }
static bool match(reflex::Matcher &m, Ref &f, int mode) { // expected result on the logical input
  if (M.edited) { X = new Expect; X->build(f, M.s, M.n); M.edited = false; } Expect &x = *X; size_t r = mode ? m.find() : m.scan(); sym_out(r); int p = M.cur;
  if (!r) { sym_assert(mode ? x.noneFrom(p, M.n) : x.none(p), "no match although the edited input has one"); M.valid = false; if (!mode && M.more) sym_stop(); if (mode) M.cur = M.n; M.more = false; return false; }
  int l = m.size(), b = p; if (M.more) { sym_assert(l > M.te - M.tb, "more() keeps the previous text"); l -= M.te - M.tb; } else if (mode) { for (b = p; b <= M.n; ++b) if (b == M.n || !x.none(b)) break; }
  sym_out(l); sym_assert(l > 0 && b + l <= M.n, "match lies in the input"); if (b + l > M.n || l <= 0) sym_stop();
  sym_assert(x.noneFrom(p, b), "earliest match"); sym_assert(x.bestRule(r - 1, b, b + l), "match on the edited input is the longest match at its position");
  if (!M.more) M.tb = b; M.te = b + l; M.cur = M.te; M.valid = true; M.more = back = false; checkCur(m, 1); return true; }
static bool ascii(int i) { return i >= M.n || (uint8_t)M.s[i] < 0x80; }
static bool anch;
static void op(reflex::Matcher &m, Ref &f, int o) {
  if (anch && (o == 6 || o == 7)) sym_stop(); // what precedes put-back characters is not defined
  if (M.more && o != 8) { if (o != 0) sym_stop(); } // more() is followed by scan()
  switch (o) {
    case 0: checkCur(m, 2); break;
    case 1: case 2: { if (!M.valid) { sym_stop(); return; } int k = o == 1 ? sym_int(0, 1, "less") : M.te - M.tb; if (o == 2) k = k > 1 ? k - 1 : k + 1; if (k == 0 && M.tb == bolAt) sym_stop(); m.less(k); if (k < M.te - M.tb) { M.te = M.tb + k; M.cur = M.te; } checkCur(m, 1); break; }
    case 3: { int c = m.input(); int w = M.cur < M.n ? (uint8_t)M.s[M.cur] : -1; sym_assert(c == w, "input() is the next byte"); if (M.cur < M.n) ++M.cur, back = false; checkCur(m, 1); break; }
    case 4: { int c = m.peek(); int w = M.cur < M.n ? (uint8_t)M.s[M.cur] : -1; sym_assert(c == w, "peek() is the next byte"); break; }
    case 5: { if (M.cur < M.n && ((uint8_t)M.s[M.cur] & 0xC0) == 0x80) { sym_stop(); return; } int c = m.winput(); int w = -1, l = 0; if (M.cur < M.n) { w = (uint8_t)M.s[M.cur]; l = 1; if (w == 0xc3) { w = 0xe9; l = 2; } if (w == 0xe2) { w = 0x20ac; l = 3; } } sym_assert(c == w, "winput() is the next character"); M.cur += l; checkCur(m, 1); break; }
    case 6: { char c = "ab\n"[sym_int(0, 2, "unput")]; m.unput(c); M.ins(c); break; }
    case 7: { static const int cs[] = { 'a', 0xe9, 0x20ac }; static const char *us[] = { "a", "\xc3\xa9", "\xe2\x82\xac" }; int k = sym_int(0, 2, "wunput"); m.wunput(cs[k]); for (int i = strlen(us[k]) - 1; i >= 0; --i) M.ins(us[k][i]); break; }
    case 8: match(m, f, 0); break;
    case 9: match(m, f, 1); break;
    case 10: { char c = "ab\n"[sym_int(0, 2, "skip")]; int e = M.cur; while (e < M.n && M.s[e] != c) ++e; bool r = m.skip(c); sym_assert(r == (e < M.n), "skip(c) finds the character"); M.cur = e < M.n ? e + 1 : M.n; M.valid = false; break; }
    case 11: { static const char *ss[] = { "ab", "aab", "\xc3\xa9", "b\nb" }; const char *q = ss[sym_int(0, 3, "skip")]; int k = strlen(q), e = M.cur; for (; e + k <= M.n; ++e) { int i = 0; while (i < k && M.s[e + i] == q[i]) ++i; if (i == k) break; } bool f2 = e + k <= M.n, r = m.skip(q); sym_assert(r == f2, "skip(s) finds the string"); M.cur = f2 ? e + k : M.n; M.valid = false; break; }
    case 12: { const char *x = m.rest(); sym_assert(m.size() == (size_t)(M.n - M.cur), "rest() has the rest of the input"); if (m.size() != (size_t)(M.n - M.cur)) break; for (int i = M.cur; i < M.n; ++i) sym_assert(x[i - M.cur] == M.s[i], "rest() is the rest of the input"); sym_assert(x[M.n - M.cur] == 0, "rest() is terminated"); M.tb = M.cur; M.te = M.cur = M.n; M.valid = true; break; }
    case 13: { if (!M.valid || M.dirty || M.cur != M.te) { sym_stop(); return; } int s = M.tb, e = M.te; while (s > 0 && M.s[s - 1] != '\n') --s; if (M.tb - s > 16) { sym_stop(); return; } while (e < M.n && M.s[e] != '\n') ++e; const char *x = m.span(); sym_assert(m.size() == (size_t)(e - s), "span() is the line"); M.tb = s; M.te = e; M.cur = e; checkCur(m, 1); sym_assert(x[e - s] == 0, "span() is terminated"); break; }
    case 14: { bool e = m.at_end(); sym_assert(e == (M.cur == M.n), "at_end()"); break; }
    case 15: { if (!M.valid || M.cur != M.te) { sym_stop(); return; } m.more(); M.more = true; break; }
    case 16: { int l = M.te - M.tb; if (M.valid) { std::string s = m.str(); sym_assert(s.size() == (size_t)l, "str() size"); for (int i = 0; i < l; ++i) sym_assert(s[i] == M.s[M.tb + i], "str() is the text"); } break; }
    case 17: { int e = M.cur; while (e + 1 < M.n && !(M.s[e] == '\xc3' && M.s[e + 1] == '\xa9')) ++e; bool r = m.skip(L'\u00e9'), w = e + 1 < M.n; sym_assert(r == w, "skip(wide) finds the character"); M.cur = w ? e + 2 : M.n; M.valid = false; break; }
    case 18: { if (M.dirty || back || M.cur == M.n) { sym_stop(); return; } bool b = m.at_bol(), w = M.cur == 0 || M.s[M.cur - 1] == '\n'; sym_assert(b == w, "at_bol() tells whether the next character begins a line"); if (M.cur > 0) sym_assert(!m.at_bob(), "at_bob() is false after the begin of the input"); break; }
    case 19: { if (M.cur == 0 || back) { sym_stop(); return; } bool b = sym_int(0, 1, "bol"); bolAt = M.cur; m.set_bol(b); if (b) M.s[M.cur - 1] = '\n'; else if (M.s[M.cur - 1] == '\n') M.s[M.cur - 1] = ' '; M.valid = false; M.edited = M.dirty = true; break; } // as if the previous character was (not) a newline
    case 20: { if (M.cur == 0 || M.dirty || anch) { sym_stop(); return; } m.unput(M.s[--M.cur]); M.valid = false; back = true; break; } // put back what was read
    case 21: { if (!M.valid || M.dirty) { sym_stop(); return; } uint64_t l = 1, k = 0; for (int i = 0; i < M.tb; ++i) { l += M.s[i] == '\n'; k = sym_ite(M.s[i] == '\n', 0, k + 1); } sym_assert(m.lineno() == l, "lineno() is one plus the number of newlines before the match"); sym_assert(m.border() == k || k > 16, /* longer lines are truncated when the buffer is shifted */ "border() is the offset on the line"); break; }
  } }
static const int NOPS = 22;
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) {
  Gen g(job + 140001); int pi = g.r(NP); const char *re = pats[pi]; anch = pi == 4 || pi == 5 || pi == 9; std::string tm; int n = 6 + g.r(18), lines = g.r(2); std::vector<bool> sy(n); int st = g.r(n - NSY + 1); for (int i = 0; i < NSY; ++i) sy[st + i] = true;
  for (int i = 0, c0 = 0; i < n; ++i) { if (sy[i]) { tm += "\4ab\n"; c0 = 0; continue; } int k = g.r(10); if (++c0 > 7) k = 9; if (k < 5) tm += 'a'; else if (k < 7) tm += 'b'; else if (k == 7) tm += "\xc3\xa9"; else if (k == 8) tm += "\xe2\x82\xac"; else { tm += '\n'; c0 = 0; } }
  sym_note(re); sym_note(tm.c_str()); Text t(tm.c_str()); memcpy(M.s, t.t, t.n); M.n = t.n; M.cur = M.tb = M.te = 0; M.valid = M.more = M.dirty = false; M.edited = true;
  reflex::Pattern p(re, "r"); Ref f(re); static const int ch[] = { 0, 3, 1 }; CM m(p, t.t, t.n, ch[g.r(3)]);
  int pre = g.r(5); for (int i = 0; i < pre; ++i) if (!match(m, f, 1)) break; if (M.cur == M.n && pre > 2) sym_stop();
  if (g.r(3) == 0 && M.cur <= M.n && M.valid) m.lineno();
  for (int i = 0; i < LEN; ++i) { int o = i < FIRST ? (job + i * 7) % NOPS : sym_int(0, NOPS - 1, "op"); op(m, f, o); if (i % 2 == job % 2 && !M.more) checkCur(m, 1); }
  if (M.more) sym_stop();
  if (sym_int(0, 1, "drain")) { for (;;) { int c = m.input(); int w = M.cur < M.n ? (uint8_t)M.s[M.cur] : -1; sym_assert(c == w, "input() continues with the edited input"); if (c != w || w < 0) break; ++M.cur; } }
  else { int k = 0; for (;;) { if (!match(m, f, 0)) { if (M.cur >= M.n) break; int c = m.input(); sym_assert(c == (uint8_t)M.s[M.cur], "input() after a failed scan() is the next byte"); ++M.cur; } if (++k > 120) { sym_fail("no progress"); break; } } } }
