// Scanners generated by reflex from specifications: actions, start conditions, state stack, default rule and end of input against the reference.
#include "mt.h"
#include "c15spec.h"
#include "c15act.h"
#include "c15_run.h"
#ifndef JOBS
#define JOBS 24
#endif
#ifndef NT
#define NT 4
#endif
struct Model { Spec *sp; std::vector<Expect> x; std::vector<std::vector<Spans> > raw; std::vector<std::vector<int> > rl; const char *t; int n, pos, tb, state, want, ent, at; bool more, over; std::vector<int> stk; int k; };
static Model *M;
static void step() { if (++M->k > 4 * M->n + 8) sym_fail("the scanner performs more actions than the input allows"); sym_assert(!M->over, "nothing happens after the end of input or a jam"); sym_assert(M->want < 0, "an action that returns ends lex()"); }
static int eofRule() { for (size_t k = 0; k < M->sp->rules.size(); ++k) if (M->sp->rules[k].eof && (M->sp->rules[k].st >> M->state & 1)) return k; return -1; }
static void apply(const SRule &u, int b, int e) { M->pos = e; M->more = false; if (e == M->n) for (size_t i = 0; i < u.op.size(); ++i) if (u.op[i].k == O_MORE) sym_stop(); // more() with nothing left to match is not defined
  for (size_t i = 0; i < u.op.size(); ++i) { const Op &o = u.op[i]; switch (o.k) { case O_RET: M->want = o.a; break; case O_START: M->state = o.a; break; case O_PUSH: M->stk.push_back(M->state); M->state = o.a; break;
      case O_POP: if (!M->stk.empty()) { M->state = M->stk.back(); M->stk.pop_back(); } break; case O_LESS: M->pos = b + 1; break; case O_MORE: M->more = true; M->tb = b; break; } } }
void c15_ev(int id, int state, size_t first, const char *text, size_t size) { step(); sym_out(id); sym_out(first); sym_out(size); sym_assert(state == M->state, "the scanner is in the expected start condition");
  Spec &S = *M->sp; int ak = -1; for (size_t k = 0; k < S.rules.size(); ++k) if (!S.rules[k].bar && S.rules[k].id == id) ak = k; if (ak < 0) { sym_fail("unknown action"); return; }
  if (S.rules[ak].eof && M->pos == M->n) { sym_assert(M->pos == M->n && eofRule() == ak, "the <<EOF>> rule of the start condition runs at the end of input"); sym_cover("eof rule"); if (S.rules[ak].op[0].k == O_START) { M->state = S.rules[ak].op[0].a; sym_cover("eof rule changes state"); return; } M->over = true; M->want = S.rules[ak].op[0].a; return; }
  int b = M->more ? M->tb : M->pos, p = M->pos, e = first + size; Expect &x = M->x[M->state]; std::vector<int> &rl = M->rl[M->state];
  if (S.find) { sym_assert((int)first >= p && e <= M->n, "match after the previous one"); sym_assert(x.noneFrom(p, first), "no earlier match skipped"); b = p = first; }
  sym_assert((int)first == b && e > p && e <= M->n, "the match starts where the previous one ended");
  std::vector<Spans> &raw = M->raw[M->state]; B ok = 0, anch = 0; // ties between a rule with ^ or $ and other rules are not decided by the documentation
  for (size_t r = 0; r < rl.size(); ++r) if (S.rules[rl[r]].anch()) anch |= raw[r].at(p, e);
  for (size_t r = 0; r < rl.size(); ++r) if (S.actionOf(rl[r]) == ak) { ok |= x.bestRule(r, p, e); if (M->sp->rules[rl[r]].anch() || 1) ok |= x.best(p, e) & raw[r].at(p, e) & (M->sp->rules[rl[r]].anch() ? B(1) : anch); } sym_assert(ok, "the action of the longest match and first rule of the start condition");
  for (int i = b; i < e; ++i) sym_assert(text[i - b] == M->t[i], "text() is the matched input"); sym_assert(text[e - b] == 0, "text() is 0-terminated");
  if (M->more) sym_cover("more"); apply(S.rules[ak], b, e); }
void c15_echo(char c) { step(); sym_out((unsigned char)c); sym_assert(!M->sp->find && !M->sp->jam, "no default rule with find or nodefault"); sym_assert(M->x[M->state].none(M->pos), "the default rule runs only when no rule matches"); sym_assert(M->pos < M->n && c == M->t[M->pos], "the default rule outputs the unmatched character"); ++M->pos; M->more = false; sym_cover("default rule"); }
void c15_enter() { ++M->ent; } void c15_again() { M->over = false; M->pos = M->tb = M->k = 0; M->more = false; M->at = M->state; }
bool c15_ret(int r) { sym_out(r); sym_assert(M->ent == M->sp->enters(M->at), "the initial code blocks of the start condition run once for every call of lex()"); M->ent = 0; M->at = M->state; if (M->want >= 0) { sym_assert(r == M->want, "lex() returned the value of the action"); M->want = -1; return !M->over; }
  sym_assert(r == 0, "lex() returns 0 at the end of input"); if (M->sp->find) sym_assert(M->x[M->state].noneFrom(M->pos, M->n), "no match left at the end"); else { sym_assert(M->pos == M->n, "lex() ends at the end of input"); sym_assert(eofRule() < 0, "the <<EOF>> rule is not skipped"); } M->over = true; return false; }
void c15_jam() { sym_assert(M->sp->jam, "exception only with nodefault"); sym_assert(!M->over && M->pos < M->n, "jam before the end of input"); sym_assert(M->x[M->state].none(M->pos), "nodefault throws only when no rule matches"); M->over = true; sym_cover("jam"); }
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) {
  Spec s(job); Model m; M = &m; m.sp = &s; std::string tx(NT, '\1'); Text t(tx.c_str()); m.t = t.t; m.n = t.n; m.pos = m.tb = m.state = m.k = m.ent = m.at = 0; m.want = -1; m.more = m.over = false; m.x.resize(s.ns); m.rl.resize(s.ns); m.raw.resize(s.ns);
  for (int q = 0; q < s.ns; ++q) { std::string re; for (size_t k = 0; k < s.rules.size(); ++k) if (!s.rules[k].eof && (s.rules[k].st >> q & 1)) { if (re.size()) re += '|'; re += "(" + s.rules[k].ref + ")"; m.rl[q].push_back(k); }
    if (re.empty()) re = "[^\\x00-\\xff]"; Ref f(re.c_str(), s.refopt().c_str()); f.crlf = true; sym_assert(!f.bad, "reference parser accepts the rules"); m.x[q].build(f, t.t, t.n); sym_note(re.c_str());
    m.raw[q].resize(m.rl[q].size()); for (size_t r = 0; r < m.rl[q].size(); ++r) m.raw[q][r] = f.rule(r); }
  c15_runs[job](t.t, t.n); sym_assert(m.over, "the scanner ran to the end of input"); }
