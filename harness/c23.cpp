// Indent, dedent and undent anchors against the stack of indent margins, for symbolic layouts.
#include "mt.h"
#include "gen.h"
namespace reflex { extern uint64_t HW; }
#ifndef NSY
#define NSY 4
#endif
#ifndef JOBS
#define JOBS 160
#endif
struct CM : reflex::Matcher { const char *t; int n, at, c; CM(reflex::Pattern &p, const char *t, int n, int c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c && m > (size_t)c) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
// 1 nodent, 2 indent, 3 and 4 dedent, 5 other
static const char *pats[] = {
  "(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)",               // documented rules
  "(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)|(?^^\\h*\\n)",  // blank lines do not count
  "(^[ \\t]+)|(^[ \\t]+\\i)|(^[ \\t]*\\j)|(\\j)|([a-z]+|\\n)",   // words
  "(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|([a-z]|\\n+)",         // newlines taken together
  "(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|([^#]|\\n)|(^\\h*#\\k)|(^\\h*#)", // undent
  "(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|([^#]|\\n)|(\\h*#\\k?)",
};
struct Sim { std::vector<int> st; int pend; Sim() : pend(0) { } };
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) {
  Gen g(job + 231001); int pi = job % 6, und = pi >= 4; std::string tm; static const char *ot[] = { "T=8", "T=4", "T=2", "T=1" }; int o = g.r(4), TAB = ot[o][2] - '0'; if (g.r(3) == 0) reflex::HW = 0;
  // a nested layout with a window of open bytes
  int lines = 3 + g.r(4), ind = 0, W = job % 4 == 3 ? 5 + g.r(24) : 1; /* wide indents grow the buffer */ std::string lay; for (int i = 0; i < lines; ++i) { for (int k = 0; k < ind * W; ++k) lay += g.r(4) ? ' ' : '\t'; lay += 'a'; if (g.r(6) == 0) lay += 'a'; lay += '\n'; if (g.r(6) == 0) lay += '\n'; ind = g.r(3) ? ind + 1 + g.r(2) : g.r(ind + 1); if (ind > (W > 1 ? 3 : 5)) ind = 1 + (W == 1); }
  if (g.r(4) == 0) lay.resize(lay.size() - 1); int n = lay.size(), st = n > NSY ? g.r(n - NSY + 1) : 0; for (int i = 0; i < n; ++i) if (i >= st && i < st + NSY) tm += und ? "\5 #a\n" : "\5 \ta\n"; else tm += lay[i];
  sym_note(pats[pi]); sym_note(tm.c_str()); Text t(tm.c_str()); const char *T = t.t; reflex::Pattern p(pats[pi], "m"); static const int ch[] = { 0, 1, 3 };
  CM m(p, t.t, t.n, ch[g.r(3)], ot[o]); int find = g.r(2); if (g.r(2)) { m.tabs(TAB == 8 ? 2 : 8); TAB = TAB == 8 ? 2 : 8; }
  std::vector<int> stk; int pos = 0, ind_ = 0, ded = 0, k = 0; bool bol = true; int op = g.r(3) ? 0 : 1 + g.r(5), at = op ? g.r(n) + sym_int(0, 1, "at") : 0; std::vector<std::vector<int> > sav;
  for (;; ++k) { if (k > 3 * n + 8) { sym_fail("no progress"); return; }
    // expected next token
    int kind = 0, e = pos, col = 0; int b = pos;
    if (bol && pi == 1) for (;;) { int q = b; while (q < n && (T[q] == ' ' || T[q] == '\t')) ++q; if (q < n && T[q] == '\n') b = q + 1; else break; }
    e = b;
    if (bol) { while (e < n && (T[e] == ' ' || T[e] == '\t')) { col = T[e] == '\t' ? col + 1 + (~col & (TAB - 1)) : col + 1; ++e; }
      if (e == n && e > b) { sym_stop(); return; } // an unterminated blank last line is outside the property
      int top = stk.empty() ? 0 : stk.back(); if (und && T[e] == '#') { kind = pi == 4 && col == top ? 7 : 6; ++e; } else if (col > top) { kind = 2; stk.push_back(col); } else if (col < top) { kind = 3; int cnt = 0; while (!stk.empty() && stk.back() > col) stk.pop_back(), ++cnt; if (!stk.empty()) stk.back() = col; ded = cnt - 1; } else if (e > b) kind = 1; }
    else if (ded) { kind = 4; --ded; }
    if (!kind) { if (b < n) { kind = 5; e = b + 1; if (pi == 5) { int q = b; while (q < n && (T[q] == ' ' || T[q] == '\t')) ++q; if (q < n && T[q] == '#') { kind = 6; e = q + 1; } } if (pi == 4 && T[b] == '#') kind = -1; if (pi == 2 && T[b] == 'a') while (e < n && T[e] == 'a') ++e; if (pi == 3 && T[b] == '\n') while (e < n && T[e] == '\n') ++e; if ((pi == 2 || pi == 3) && (T[b] == ' ' || T[b] == '\t')) { kind = -1; } } }
    if (kind == -1) { if (find) { while (b < n && (pi == 4 ? T[b] == '#' : T[b] == ' ' || T[b] == '\t')) ++b; bol = false; pos = b; continue; } sym_assert(m.scan() == 0, "no rule matches here"); return; }
    size_t r = find ? m.find() : m.scan(); sym_out(r); sym_out(m.first()); sym_out(m.size());
    if (!kind) { sym_assert(r == 0, "no match is left"); break; }
    if (kind == 3 || kind == 4) sym_assert(r == 3 || r == 4, "a closed indent margin is a dedent match"); else sym_assert(r == (size_t)kind, "nodent, indent and other matches follow the stack");
    sym_assert(m.first() == (size_t)b && m.size() == (size_t)(e - b), "the match is the leading white space");
    sym_assert(m.last_stop() == (stk.empty() ? 0 : (size_t)stk.back()), "last_stop() is the current indent margin"); 
    if (kind != 3 || !ded) sym_assert(m.stops().size() == stk.size(), "stops() has the open indent margins");
    bol = kind == 5 && T[e - 1] == '\n'; pos = e; if (op && kind == 5 && !ded && k >= at) { int v = sym_int(0, 4, "v"), a = at; at = 1000000; std::vector<int> st2; // manipulate the margins once, and once more later
      switch (op) { case 1: m.insert_stop(v); if (v > 0) { size_t i = 0; while (i < stk.size() && stk[i] < v) ++i; if (i == stk.size() || stk[i] != v) stk.insert(stk.begin() + i, v); } break;
        case 2: m.delete_stop(v); while (!stk.empty() && stk.back() >= v) stk.pop_back(); break;
        case 3: if (sav.empty()) { m.push_stops(); sav.push_back(stk); stk.clear(); at = a + 1 + v; } else { m.pop_stops(); stk = sav.back(); sav.pop_back(); } break;
        case 4: m.clear_stops(); stk.clear(); break;
        case 5: { std::vector<size_t> z; if (v) z.push_back(v); m.stops() = z; stk.clear(); if (v) stk.push_back(v); } break; } } } }
