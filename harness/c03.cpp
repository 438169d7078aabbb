// find()/scan()/split() against the reference, over every search strategy a pattern can select.
#include "mt.h"
#include "gen.h"
namespace reflex { extern uint64_t HW; }
#ifndef MODE
#define MODE M_FIND
#endif
#define S1 "\1"
#define S2 "\1\1"
#define S3 "\1\1\1"
#define S4 S2 S2
#define S5 S3 S2
#define S6 S3 S3
static const Case cases[] = {
#include "cases_find.inc"
};
static const int NC = sizeof(cases) / sizeof(*cases);
#ifndef FAMILY
#define FAMILY 0
#endif
#ifndef NT
#define NT 4
#endif
#ifndef WFAM
#define WFAM 0
#endif
#ifndef BMFAM
#define BMFAM 0
#endif
#ifndef NSY
#define NSY 6
#endif
// a literal that selects Boyer-Moore (letters of high frequency, average shift of 2 or more) with repeated letters and a border; the text is made of overlapping copies with bytes left open
static void bmcase(Gen &g, std::string &re, std::string &tm) { const char *al = "aeiotns"; std::string w; for (;;) { w.clear(); int n = 5 + g.r(6), bd = g.r(4), d = bd ? g.r(3) : 0; for (int i = 0; i < n; ++i) w += al[g.r(7)]; for (int i = 0; i < bd; ++i) w += w[i]; if (d) w[w.size() - 1 - d] = w[w.size() - 1]; n = w.size(); int sc = 0; for (int i = 0; i < n; ++i) { int k = n - 1; while (w[k] != w[i]) --k; sc += n - 1 - k; } if (sc / n >= 2) break; }
  int open = NSY, n = w.size(); for (int c = 0; c < 3; ++c) { int o = 0; if (c && g.r(4)) { for (o = n - 1; o > 0; --o) if (w.compare(0, o, w, n - o, o) == 0 && g.r(3)) break; } int p1 = o + g.r(n - o), p2 = g.r(2) ? n - 1 - g.r(4) : o + g.r(n - o); for (int i = o; i < n; ++i) if (open > 0 && (i == p1 || i == p2)) { --open; char x[] = { '\5', w[i], w[g.r(n)], 'x', w[0], 0 }; for (int a = 2; a < 5; ++a) { bool dup = true; while (dup) { dup = false; for (int b = 1; b < a; ++b) dup |= x[a] == x[b]; if (dup) x[a] = "aeiotnsxy"[g.r(9)]; } } tm += x; } else tm += w[i]; }
  while (open-- > 0) tm += "\5abc_"; re = w; int k = g.r(4); if (k == 1) re += "(ab|x)"; if (k == 2) re += "[aeio]"; }
extern "C" int harness_jobs() { return BMFAM ? BMFAM : WFAM ? WFAM : FAMILY ? FAMILY : NC; }
extern "C" void harness(int job) {
  std::string re, opt, text;
  if (BMFAM) { Gen g(job + 55501); bmcase(g, re, text); reflex::HW = 0; }
  else if (WFAM) { Gen g(job + 90001); re = g.words(text, NSY); if (job % 3 == 2) reflex::HW = 0; }
  else if (FAMILY) { re = Gen(job + 7001).regex(); text = std::string(NT, '\1'); if (job % 4 == 3) reflex::HW = 0; }
  else { const Case &c = cases[job]; re = c.re; opt = c.opt; text = c.text; if (opt[0] == '!') { opt = opt.substr(1); reflex::HW = 0; } }  // '!': CPU without SSE2, selects the memchr and Boyer-Moore searches
  sym_note(re.c_str()); if (WFAM) sym_note(text.c_str());
  reflex::Pattern p(re, "r" + opt); Ref f(re.c_str(), opt.c_str()); sym_assert(!f.bad, "reference parser accepts the pattern"); Text t(text.c_str()); Expect x; x.build(f, t.t, t.n);
  reflex::Matcher m(p, reflex::Input(t.t, t.n));
  mtIter = job / 4 % 4;
  switch (MODE) { case M_FIND: checkFind(m, x, t.n); break; case M_SCAN: checkScan(m, x, t.n); break; case M_SPLIT: checkSplit(m, x, t.t, t.n); break; default: ; } }
