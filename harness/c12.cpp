// The same results however the input is delivered: chunk sizes, wrap(), block size, string, in-place buffer. Compiled with a buffer of 32 bytes so that shifting and growth happen.
#include "mt.h"
#include "gen.h"
#include "istr.h"
namespace reflex { extern uint64_t HW; }
#ifndef NSY
#define NSY 3
#endif
#ifndef JOBS
#define JOBS 100
#endif
static const int sizes[] = { 1, 2, 3, 5, 7, 16, 0 };
struct CM : reflex::Matcher { const char *t; int n, at, k, split; bool wr; int sz[3];
  CM(reflex::Pattern &p, const char *t, int n) : reflex::Matcher(p, reflex::Input()), t(t), n(n), at(0), k(0), split(-1), wr(false) { for (int i = 0; i < 3; ++i) sz[i] = 0; }
  size_t get(char *s, size_t m) override { int lim = split >= 0 && !wr ? split : n; int c = sz[k < 2 ? k : 2]; ++k; if (c == 0 || (size_t)c > m) c = m; if (c > lim - at) c = lim - at; memcpy(s, t + at, c); at += c; return c; }
  bool wrap() override { if (split < 0 || wr) return false; wr = true; return true; } };
extern "C" int harness_jobs() { return JOBS; }
static void run(reflex::Matcher &m, Expect &x, const char *t, int n, int mode) { mtText = t; switch (mode) { case 0: checkFind(m, x, n); break; case 1: checkScan(m, x, n); break; case 2: checkSplit(m, x, t, n); break; case 3: sym_assert((m.matches() != 0) == (x.fullAny() != 0), "matches()"); } }
static std::string fixedNl(const std::string &t) { std::string r; size_t col = 0; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; if (c == '_' && (i & 1)) c = '\n'; if (c == 5) { r += t.substr(i, 5); i += 4; continue; } r += c; } return r; }
extern "C" void harness(int job) {
  std::string re, text; Gen g(job + 120001); 
  if (job % 5 == 4) { re = g.regex(); text = "\5abc_"; for (int i = 0; i < 44; ++i) text += "abc\n_ab"[g.r(7)]; for (int i = 1; i < NSY; ++i) text.insert(7 * i + 3 * i, "\5abc\n"); }
  else { re = g.words(text, NSY); text = fixedNl(text); std::string t2; Gen g2(job + 170001); while (text.size() < 48) { g.words(t2, 0); text += fixedNl(t2).substr(0, 20); } }
  if (job % 3 == 2) reflex::HW = 0;
  sym_note(re.c_str()); sym_note(text.c_str());
  reflex::Pattern p(re, "r"); Ref f(re.c_str()); sym_assert(!f.bad, "reference parser accepts the pattern");
  Text t(text.c_str()); Expect x; x.build(f, t.t, t.n);
  int mode = job % 7 == 6 ? 1 : job % 7 == 5 ? 2 : job % 13 == 3 ? 3 : 0;
  int how = sym_int(0, 8, "how"); sym_out(how);
  switch (how) {
    case 0: { CM m(p, t.t, t.n); for (int i = 0; i < 3; ++i) m.sz[i] = sizes[sym_int(0, 6, "chunk")]; run(m, x, t.t, t.n, mode); break; }
    case 1: { CM m(p, t.t, t.n); m.split = sym_int(0, 4, "wrap") * (t.n - 1) / 4 + 1; m.sz[0] = m.sz[1] = m.sz[2] = sizes[sym_int(4, 6, "chunk")]; run(m, x, t.t, t.n, mode); break; }
    case 2: { CM m(p, t.t, t.n); m.buffer(sym_int(1, 4, "block") * 3); run(m, x, t.t, t.n, mode); break; }
    case 3: { reflex::Matcher m(p, reflex::Input(t.t, t.n)); m.interactive(); run(m, x, t.t, t.n, mode); break; }
    case 4: { char *b = new char[t.n + 1]; memcpy(b, t.t, t.n); b[t.n] = 0; reflex::Matcher m(p); m.buffer(b, t.n + 1); run(m, x, t.t, t.n, mode); break; }
    case 5: { reflex::Matcher m(p, reflex::Input(t.t, t.n)); m.buffer(); run(m, x, t.t, t.n, mode); break; }
    case 6: { FILE *fp = sym_file(t.t, t.n); reflex::Matcher m(p, reflex::Input(fp)); if (sym_int(0, 1, "all")) m.buffer(); run(m, x, t.t, t.n, mode); break; }
    case 7: { int st = sym_int(0, 3, "stream"); MemBuf mb(t.t, t.n, st == 0 ? 0 : 2 * st - 1); std::istream is(&mb); reflex::Matcher m(p, reflex::Input(is)); int b = sym_int(0, 2, "block"); if (b) m.buffer(b * 7 - 6); run(m, x, t.t, t.n, mode); break; }
    case 8: { wchar_t *w = new wchar_t[t.n + 1]; for (int i = 0; i < t.n; ++i) w[i] = (unsigned char)t.t[i]; w[t.n] = 0; reflex::Matcher m(p, reflex::Input(w)); int b = sym_int(0, 2, "block"); if (b) m.buffer(b * 7 - 6); run(m, x, t.t, t.n, mode); break; } } }
