// size(), operator[] and reachable() of a pattern against the alternatives it was made of and the words they match.
#include "mt.h"
#include "gen.h"
#ifndef JOBS
#define JOBS 500
#endif
#ifndef NT
#define NT 4
#endif
struct Alt { const char *s, *opt; }; // single alternatives whose text contains bars that do not separate
static const char *const fixedAlts[] = { "a", "ab", "abc", "b", "[|]", "(a|b)", "(?:a|bc)+", "a\\|b", "\\Q|\\E", "\\Qa|b\\Ec", "[a|b]c", "a(b|(c|d))*", "[^|]b", "\\x7c", "\\n", "a{2}", "abc(?#x|y)", "[[:alpha:]|]", "a+", "a*b", ".", "..", "c(a||b)", "[]|]", "a?b?c?", "ba", "cab", "(?i:ab|c)", "c" };
static const int NF = 29;
// length of the longest word of node x, or -1 if unbounded
static int maxLen(Ref &f, int x) { RNode &n = f.nd[x]; switch (n.k) { case N_SET: return 1; case N_CAT: { int a = maxLen(f, n.a), b = maxLen(f, n.b); return a < 0 || b < 0 ? -1 : a + b; } case N_ALT: { int a = maxLen(f, n.a), b = maxLen(f, n.b); return a < 0 || b < 0 ? -1 : a > b ? a : b; } case N_REP: { int a = maxLen(f, n.a); return a == 0 || n.hi == 0 ? 0 : a < 0 || n.hi < 0 ? -1 : a * n.hi; } default: return 0; } }
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) {
  Gen g(job + 610001); int n = 1 + g.r(5); std::vector<std::string> alt; std::string re; bool q = false, x = false; std::string opt = "r";
  if (job % 9 == 8) { opt += "x"; x = true; } if (job % 7 == 6) { opt += "q"; q = true; } if (job % 11 == 10) opt += "i";
  for (int i = 0; i < n; ++i) { std::string s; int k = g.r(8);
    if (k < 3) s = fixedAlts[g.r(NF)]; else if (k < 5) { int m = 1 + g.r(3); for (int j = 0; j < m; ++j) s += g.ch(); } else { g.o.clear(); g.seq(1); s = g.o; }
    if (q && g.r(4) == 0) s = "\"a|b\""; if (x && g.r(3) == 0) s += " "; if (x && g.r(6) == 0) s += "#a|b\n";
    alt.push_back(s); }
  if (job % 13 == 12) alt[0] = "(?i)" + alt[0];
  for (int i = 0; i < n; ++i) { if (i) re += '|'; re += alt[i]; }
  sym_note(re.c_str());
  reflex::Pattern p(re, opt); Ref f(re.c_str(), opt.c_str()); sym_assert(!f.bad, "reference parser accepts the pattern");
  sym_out(p.size()); sym_assert(p.size() == (size_t)n, "size() is the number of alternatives"); sym_assert(p[0] == re, "the whole regex"); if (p.size() == (size_t)n) for (int i = 0; i < n; ++i) sym_assert(p[i + 1] == alt[i], "operator[] is the source text of the alternative"); sym_assert(p[n + 1] == "" && !p.reachable(0) && !p.reachable(n + 1), "out of range");
  std::vector<bool> done(n, false), fin(n, true); for (int i = 0; i < n; ++i) { int m = maxLen(f, f.rules[i]); fin[i] = m >= 0 && m <= NT; sym_out(p.reachable(i + 1)); }
  for (int len = 0; len <= NT; ++len) { char t[NT + 1]; sym_make(t, len, "text"); Expect e; e.build(f, t, len);
    for (int i = 0; i < n; ++i) { B c = e.full(i); if (!p.reachable(i + 1)) sym_assert(c ^ 1, "a rule reported unreachable is the first to match an input"); else if (!done[i] && sym_sat(c, "witness")) done[i] = true; } }
  for (int i = 0; i < n; ++i) if (p.reachable(i + 1)) { if (fin[i]) sym_assert(done[i], "a rule reported reachable is never the first to match an input"); sym_cover(done[i] ? "witness" : "none"); } else sym_cover("unreachable"); }
