// Scanners generated with the Bison interfaces: tokens, semantic values, yytext, yyleng, yylineno and locations against the reference.
#include "mt.h"
#include "c29spec.h"
#include "c29act.h"
#include "c29_run.h"
#ifndef JOBS
#define JOBS 26
#endif
#ifndef NT
#define NT 5
#endif
typedef uint64_t U;
static const uint8_t *T; static int N, pos, tb, te, last, k_; static BSpec *S; static Expect *X; static std::vector<Spans> *raw_; static bool over;
static U line(int b) { U k = 1; for (int i = 0; i < b; ++i) k += T[i] == '\n'; return k; }
static U step(U k, int i) { U tab = k + 1 + (~k & 7); return sym_ite(T[i] == '\t', tab, k + ((T[i] & 0xC0) != 0x80)); }
static U col(int b) { U k = 0; for (int i = 0; i < b; ++i) k = sym_ite(T[i] == '\n', 0, step(k, i)); return k; }
static U colEnd(int b, int e) { if (b == e) return col(b); U k = col(b); for (int i = b; i < e; ++i) k = sym_ite(T[i] == '\n', 0, step(k, i)); return sym_ite(k > 0, k - 1, 0); }
void c29_ev(int id, size_t first, const char *text, size_t size) { sym_out(id); sym_out(first); sym_out(size); if (++k_ > 2 * N + 4) { sym_fail("no progress"); sym_stop(); } sym_assert(!over && last <= 0, "an action that returns ends the call"); sym_assert((int)first == pos && size > 0 && pos + (int)size <= N, "the match starts where the previous one ended"); tb = pos; te = pos + (int)size;
  B ok = X->bestRule(id - 1, tb, te); if (S->set) { B a = (*raw_)[3].at(tb, te) | (*raw_)[4].at(tb, te); ok |= X->best(tb, te) & (*raw_)[id - 1].at(tb, te) & a; } sym_assert(ok, "longest match and first rule"); // ties with an anchored rule are not decided by the documentation
  for (int i = tb; i < te; ++i) sym_assert((uint8_t)text[i - tb] == T[i], "text() is the matched input"); pos = te; last = c29_rules[S->set][id - 1].ret ? id : 0; }
int c29_off;
void c29_acc(bool ok) { sym_assert(ok, "the accessors of a reentrant scanner return what was set"); }
bool c29_ret(int r, const c29Loc *l, const char *text, long leng, long lineno, int val) { sym_out(r);
  if (r == 0) { sym_assert(pos == N && last <= 0, "0 at the end of input only"); if (l) sym_assert((U)l->first_line == line(N) + c29_off, "the location at the end of input"); over = true; return false; }
  sym_assert(r == last, "the token returned is that of the action"); if (val >= 0) sym_assert(val == last, "the semantic value is the one assigned by the action"); last = -1;
  if (l) { sym_out(l->first_column); sym_assert((U)l->first_line == line(tb) + c29_off, "first line"); sym_assert((U)l->first_column == col(tb), "first column"); sym_assert((U)l->last_line == line(te) + c29_off, "last line"); sym_assert((U)l->last_column == colEnd(tb, te), "last column"); }
  if (text) { sym_assert(leng == te - tb, "yyleng"); for (int i = tb; i < te; ++i) sym_assert((uint8_t)text[i - tb] == T[i], "yytext"); sym_assert(text[te - tb] == 0, "yytext is 0-terminated"); sym_assert((U)lineno == line(tb) + c29_off, "yylineno"); }
  return true; }
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) { BSpec s(job); S = &s; std::string tx; for (int i = 0; i < NT; ++i) tx += (i + s.set) % 2 ? "\5ab\n\"" : "\5a\n\t "; Text t(tx.c_str()); T = (uint8_t*)t.t; N = t.n; pos = tb = te = last = k_ = 0; over = false; c29_off = 0;
  std::string re; for (int k = 0; k < 7; ++k) { if (k) re += '|'; re += std::string("(") + c29_rules[s.set][k].ref + ")"; } sym_note(re.c_str()); sym_note(c29_kinds[s.kind]); Ref f(re.c_str(), "m"); f.crlf = true; sym_assert(!f.bad, "reference parser accepts the rules"); Expect x; x.build(f, t.t, t.n); X = &x; std::vector<Spans> raw(7); for (int k = 0; k < 7; ++k) raw[k] = f.rule(k); raw_ = &raw;
  c29_runs[job](t.t, t.n); sym_assert(over, "the scanner ran to the end of input"); }
