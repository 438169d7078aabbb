// Scanners generated by reflex whose actions nest, switch, restart, chain and edit inputs, against a model of the stack of inputs.
#include "mt.h"
#include "c27act.h"
#include "c27_run.h"
#ifndef JOBS
#define JOBS 16
#endif
#ifndef NL
#define NL 2
#endif
enum { NP = 3, NSPEC = 16 };
enum Kind { CHAIN, INCL, SWITCH, RESTART, EDIT, ONCE };
static const int kinds[NSPEC] = { CHAIN, CHAIN, CHAIN, INCL, INCL, SWITCH, SWITCH, RESTART, RESTART, INCL, INCL, CHAIN, EDIT, EDIT, ONCE, ONCE };
struct Src { const char *t; int n, pos; };
static char pt[NP][NL + 1]; static int pl[NP], nextp, give, spec, kind, want, echo, inp, events; static bool over, edited; static std::vector<Src> *stk; static std::vector<int> *sts; static int state; static bool old;
int c27_next() { if (kind == CHAIN) return nextp < NP ? nextp++ : -1; sym_assert(give >= 0 || nextp >= NP, "the action runs once"); int g = give; give = -1; return g; }
const char *c27_text(int i) { return pt[i]; } size_t c27_len(int i) { return pl[i]; }
static bool word(char c) { return c >= 'a' && c <= 'z'; } static bool num(char c) { return c >= '0' && c <= '9'; }
static void step() { sym_assert(!over, "nothing happens after the end of input"); sym_assert(want < 0 && echo < 0 && inp < 0, "the rest of the action is performed"); if (++events > 60) sym_fail("more events than the input allows"); }
static void eof() { while (stk->back().pos == stk->back().n) { if (kind == INCL && stk->size() > 1) { stk->pop_back(); if (spec == 9) { if (sts->size()) { state = sts->back(); sts->pop_back(); } } } else if (kind == SWITCH && stk->size() > 1) stk->pop_back(); else break; } }
void c27_ev(int id, const char *text, size_t size, size_t line, size_t col) { step(); sym_out(id); sym_out(size); sym_out(line); eof(); Src &s = stk->back(); sym_assert(s.pos < s.n, "a match only where input is left"); if (s.pos >= s.n) sym_stop();
  int b = s.pos, e = b + 1; char c = s.t[b]; int w = word(c) ? 1 : num(c) ? 2 : 3; if (state == 1 && w == 1) w = 4; else { if (w == 1) while (e < s.n && word(s.t[e])) ++e; if (w == 2) { while (e < s.n && num(s.t[e])) ++e; if (state == 1) w = 5; } }
  sym_assert(id == w, "the rule that matches the current input at the current position"); sym_assert((int)size == e - b, "the longest match of the current input"); if ((int)size != e - b) sym_stop(); for (int i = b; i < e; ++i) sym_assert(text[i - b] == s.t[i], "text() is the matched input"); sym_assert(text[e - b] == 0, "text() is terminated");
  if (!edited) { int l = 1, k = 0; for (int i = 0; i < b; ++i) { ++k; if (s.t[i] == '\n') { ++l; k = 0; } } sym_assert((int)line == l, "lineno() counts the lines of the current input"); sym_assert((int)col == k, "columno() counts the columns of the current input"); }
  s.pos = e; if ((spec == 9 && w == 5) || ((spec == 10 || spec == 11) && w == 2)) want = w;
  if (kind == EDIT) { if (w == 1) { echo = b; inp = -1; } else if (w == 2) inp = e; else if (c == '(') { char *q = new char[s.n + 3]; q[0] = 'a'; q[1] = '1'; for (int i = e; i < s.n; ++i) q[i - e + 2] = s.t[i]; s.t = q; s.n = s.n - e + 2; s.pos = 0; edited = true; } return; }
  if (c == '(' && kind != CHAIN && nextp < NP && !(kind == SWITCH && stk->size() > 1)) { give = nextp; Src p; p.t = pt[nextp]; p.n = pl[nextp]; p.pos = 0; ++nextp; if (kind == RESTART) stk->back() = p; else stk->push_back(p); if (spec == 9) { sts->push_back(state); state = 1; } sym_cover("next input"); } else give = -1; }
void c27_out(const char *x, size_t n) { sym_assert(kind == EDIT && echo >= 0, "output only by ECHO"); if (echo < 0) sym_stop(); Src &s = stk->back(); sym_assert((int)n == s.pos - echo, "ECHO writes the match"); for (size_t i = 0; i < n; ++i) sym_assert(x[i] == s.t[echo + i], "ECHO writes the match"); echo = -1; }
void c27_char(int c) { sym_out(c); sym_assert(inp >= 0, "input() once per action"); Src &s = stk->back(); if (s.pos < s.n) { sym_assert(c == (unsigned char)s.t[s.pos], "input() is the next character"); ++s.pos; } else sym_assert(c == (spec == 12 ? 0 : EOF), "input() at the end of input"); inp = -1; }
bool c27_ret(int r) { sym_out(r); if (want >= 0) { sym_assert(r == want, "lex() returns the value of the action"); want = -1; if (++events > 60) sym_fail("too many returns"); return true; }
  sym_assert(r == 0, "lex() returns 0 at the end of input"); sym_assert(echo < 0 && inp < 0, "the action is performed to its end"); eof(); sym_assert(stk->size() == 1 && stk->back().pos == stk->back().n, "lex() ends when all inputs are exhausted"); over = true; return false; }
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) { spec = job % NSPEC; kind = kinds[spec]; want = echo = inp = give = -1; over = edited = old = false; events = state = 0; stk = new std::vector<Src>; sts = new std::vector<int>;
  static const int lens[][NP] = { { NL, NL, NL }, { NL, 1, NL }, { NL, 0, NL }, { 0, NL, 1 }, { 1, NL, 0 } };
  int li = sym_int(0, kind == EDIT ? 0 : 4, "lengths"); for (int i = 0; i < NP; ++i) { pl[i] = lens[li][i]; if (pl[i]) sym_make(pt[i], pl[i], "piece"); for (int k = 0; k < pl[i]; ++k) { char c = pt[i][k]; sym_assume((c == 'a') | (c == '1') | (c == '(') | (c == '\n')); } pt[i][pl[i]] = 0; }
  Src s; s.t = pt[0]; s.n = pl[0]; s.pos = 0; nextp = 1; const char *t0 = pt[0]; int n0 = pl[0];
  if (kind == CHAIN || kind == ONCE) { char *q = new char[NP * NL + 1]; s.t = q; s.n = 0; for (int i = 0; i < NP; ++i) for (int k = 0; k < pl[i]; ++k) q[s.n++] = pt[i][k]; }
  if (kind == ONCE) { t0 = s.t; n0 = s.n; nextp = NP; }
  if (kind == EDIT) { char *q = new char[NP * NL + 1]; s.t = q; s.n = 0; for (int i = 0; i < 2; ++i) for (int k = 0; k < pl[i]; ++k) q[s.n++] = pt[i][k]; t0 = q; n0 = s.n; char *q2 = new char[s.n + 1]; for (int i = 0; i < s.n; ++i) q2[i] = q[i]; s.t = q2; nextp = NP; }
  stk->push_back(s); c27_runs[job](t0, n0); sym_assert(over, "the scanner ran to the end of input"); }
