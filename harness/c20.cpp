// Matchers that share a pattern do not write to it nor to library globals, and do not influence each other.
#include "mt.h"
#include "gen.h"
#include "synt.h"
namespace reflex { extern uint64_t HW; }
#ifndef JOBS
#define JOBS 200
#endif
struct Ctx { const char *re, *al; };
static const Ctx cases[] = {
#include "cases_ctx.inc"
};
static const int NC = sizeof(cases) / sizeof(*cases);
static const char *const odd[] = { "^[ \\t]*\\i|^[ \\t]*\\j|a", "^[ \\t]+|[ \\t]*\\i|[ \\t]*\\j|\\n|a\\k", "(?u:.)", "(?u)\\p{L}+|.", "\\R|.", "\\X", "(?i)ab|cd|ef|gh", "a(?=b(?=c))|(?^ab)|c", "(.*\\n)?", "(?m)^\\w+$|\\n", "[^\\n]*\\n", "aaaaaaaa|bbbb" };
static const int NO = sizeof(odd) / sizeof(*odd);
struct CM : reflex::Matcher { const char *t; int n, at; size_t c; CM(const reflex::Pattern &p, const char *t, int n, size_t c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c < m) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
static reflex::Matcher *make(const reflex::Pattern &p, int how, const char *t, int n, const char *mo) { if (how == 0) { char *b = new char[n + 1]; memcpy(b, t, n); b[n] = 0; reflex::Matcher *m = new reflex::Matcher(p, reflex::Input(), mo); m->buffer(b, n + 1); return m; } if (how == 1) return new CM(p, t, n, 3, mo); if (how == 2) { std::string *s = new std::string(t, n); return new reflex::Matcher(p, *s, mo); } reflex::Matcher *q = new reflex::Matcher(p, reflex::Input(t, n), mo); reflex::Matcher *m = new reflex::Matcher(*q); delete q; m->input(reflex::Input(t, n)); return m; }
// one step of the session of a matcher; false at its end
static bool step(reflex::Matcher &m, int meth, int ops, int k, std::vector<uint64_t> &o) {
  size_t r = meth == 0 ? m.find() : meth == 1 ? m.scan() : meth == 2 ? m.split() : m.matches(); o.push_back(r); if (!r) { o.push_back(m.lineno()); return false; }
  o.push_back(m.first()); o.push_back(m.size()); uint64_t h = 0; const char *s = m.begin(); for (size_t i = 0; i < m.size(); ++i) h = h * 31 + (uint8_t)s[i]; o.push_back(h);
  if (ops == 1) { o.push_back(strlen(m.text())); o.push_back(m.lineno()); o.push_back(m.columno()); o.push_back(m.line().size()); o.push_back(m.wstr().size()); }
  else if (ops == 2) { o.push_back(m.columno_end()); o.push_back(m.lines()); o.push_back(m.border()); }
  else if (ops == 3 && meth != 2) { o.push_back(m.input()); if (k == 1) { m.unput('a'); m.wunput(0xe9); } o.push_back(m.winput()); m.more(); o.push_back(m.skip('b')); }
  return meth != 3 && k < 40; }
extern "C" int harness_jobs() { return JOBS + NO * 2 + NC; }
extern "C" void harness(int job) {
  std::string re, text, opt; const char *al;
  if (job >= JOBS + NO * 2) { int k = job - JOBS - NO * 2; re = cases[k % NC].re; al = cases[k % NC].al; for (int i = 0; i < 3; ++i) { text += '\5'; text += al; } text += al[k & 3]; text += "ab"; }
  else if (job >= JOBS) { int k = job - JOBS; re = odd[k % NO]; text = k / NO == 0 ? "\1\1\1" : "\5ab\n \5a\tb b\n \5a\n_ a"; }
  else { Gen g(job * 7 + 410001); if (job % 5 == 0) { Synt s(job + 410001); Ref f; s.build(f); re = s.o; opt = s.opt; text = "\1\1"; } else if (job % 5 < 3) { re = g.regex(); text = "a\1" "bc\1\1"; } else re = g.words(text, 2); }
  if (job % 3 == 2) reflex::HW = 0;
  sym_note((re + "  /" + opt + "/  " + text).c_str());
  if (!opt.empty() && opt.find('=') != std::string::npos && opt[opt.size() - 1] != ';') opt += ';';
  const reflex::Pattern *pp = 0; try { pp = new reflex::Pattern(re, opt + "r"); } catch (reflex::regex_error&) { sym_stop(); return; } const reflex::Pattern &p = *pp;
  std::string u("\nab cab\n\tbca\xc3\xa9 b", 17); if (re.size() > 8) u += re.substr(0, 8); Text t(text.c_str()); 
  int how = sym_int(0, 3, "how"), meth = sym_int(0, 3, "method"), ops = TIER == 1 ? (job / 3 + how + meth) % 4 : sym_int(0, 3, "ops"); const char *mo = job % 4 == 1 ? "N" : job % 4 == 2 ? "AT=4" : "";
  sym_freeze();
  std::vector<uint64_t> a, b, c, d; { reflex::Matcher *m = make(p, how, t.t, t.n, mo); for (int k = 0; step(*m, meth, ops, k, a); ++k) ; delete m; }
  { reflex::Matcher *m = make(p, (how + 1) % 4, u.c_str(), u.size(), ""); for (int k = 0; step(*m, job % 3, job % 4, k, b); ++k) ; delete m; }
  reflex::Matcher *m = make(p, how, t.t, t.n, mo), *q = make(p, (how + 1) % 4, u.c_str(), u.size(), ""); bool am = true, aq = true; for (int k = 0; am || aq; ++k) { if (am) am = step(*m, meth, ops, k, c); if (aq) aq = step(*q, job % 3, job % 4, k, d); }
  if (job & 1) { delete m; delete q; } else { delete q; delete m; }
  sym_unfreeze();
  sym_assert(a.size() == c.size() && b.size() == d.size(), "interleaved matchers report as many results as alone");
  for (size_t i = 0; i < a.size() && i < c.size(); ++i) { sym_out(a[i]); sym_assert(a[i] == c[i], "a matcher reports the same beside another one"); }
  for (size_t i = 0; i < b.size() && i < d.size(); ++i) sym_assert(b[i] == d[i], "the other matcher reports the same beside this one"); }
