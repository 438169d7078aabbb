// Exported opcode tables, predictors and direct code against the pattern built at run time.
#include "mt.h"
#include "c11pats.h"
#ifndef REFLEX_CODE_DECL
#define REFLEX_CODE_DECL const reflex::Pattern::Opcode
#endif
#include "c11_tab.h"
#include "c11_fsm.h"
struct Row { const reflex::Pattern::Opcode *tc; const reflex::Pattern::Pred *tp; reflex::Pattern::FSM fc; const reflex::Pattern::Pred *fp; };
#include "c11_rows.h"
namespace reflex { extern uint64_t HW; }
typedef std::vector<uint64_t> O;
struct CM : reflex::Matcher { const char *t; int n, at, c; CM(const reflex::Pattern &p, const char *t, int n, int c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c && m > (size_t)c) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
static void run(const reflex::Pattern &p, const char *t, int n, int meth, int chunk, const char *mo, O &o) { CM m(p, t, n, chunk, mo); for (int k = 0; k < 3 * n + 9; ++k) { size_t r = meth == 0 ? m.find() : meth == 1 ? m.scan() : meth == 2 ? m.split() : m.matches(); o.push_back(r); if (k & 1) o.push_back(m.at_end()); if (!r) { if (meth != 1 || m.at_end() || m.input() == EOF) break; continue; } o.push_back(m.first()); o.push_back(m.size()); if (meth == 3) break; } o.push_back(m.stops().size()); }
static void same(const O &a, const O &b, const char *what) { bool eq = a.size() == b.size(); sym_assert(eq, what); if (!eq) return; uint64_t d = 0; for (size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i]; sym_assert(d == 0, what); }
extern "C" int harness_jobs() { return c11n(); }
extern "C" void harness(int job) {
  std::string re, opt, text; c11(job, re, opt, text); const Row &w = rows[job]; if (!w.tc) { sym_stop(); return; } if (job % 3 == 0) reflex::HW = 0;
  sym_note((re + "  /" + opt + "/  " + text).c_str()); if (!opt.empty()) opt += ';'; reflex::Pattern p(re, opt + "r"); Text t(text.c_str()); Gen g(job + 11011);
  int meth = sym_int(0, 3, "method"), kind = sym_int(0, 4, "kind"), chunk = g.r(3) ? 0 : 1 + g.r(3); static const char *const mos[] = { "", "T=4", "N", "W" }; const char *mo = mos[g.r(4)]; O a, b;
  run(p, t.t, t.n, meth, chunk, mo, a); for (size_t i = 0; i < a.size(); ++i) sym_out(a[i]);
  if (kind == 0) { reflex::Pattern q(w.tc, w.tp); run(q, t.t, t.n, meth, chunk, mo, b); same(a, b, "the exported opcode table with its predictor matches the same"); }
  else if (kind == 1) { reflex::Pattern q(w.tc); run(q, t.t, t.n, meth, chunk, mo, b); same(a, b, "the exported opcode table without predictor matches the same"); }
  else if (kind == 2) { reflex::Pattern q(w.fc, w.fp); run(q, t.t, t.n, meth, chunk, mo, b); same(a, b, "the exported code with its predictor matches the same"); }
  else if (kind == 3) { reflex::Pattern q(w.fc); run(q, t.t, t.n, meth, chunk, mo, b); same(a, b, "the exported code without predictor matches the same"); }
  else { reflex::Pattern q0(w.tc, w.tp), q(q0), z(w.fc, w.fp), y("x"); y = q; run(y, t.t, t.n, meth, chunk, mo, b); same(a, b, "a copy of a pattern with an exported table matches the same"); b.clear(); y.assign(w.fc, w.fp); run(y, t.t, t.n, meth, chunk, mo, b); same(a, b, "an assigned pattern with exported code matches the same"); } }
