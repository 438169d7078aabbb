// Positions, line and column numbers against their definitions, for every match of a search, with shifting buffers and lazily made queries.
#include "mt.h"
#include "gen.h"
namespace reflex { extern uint64_t HW; }
#ifndef JOBS
#define JOBS 64
#endif
#ifndef NSY
#define NSY 5
#endif
static const char *pats[] = { "b+", "[b\\n]+", "a\\n?b", "[^b]+|b+", "\\n+", "b\\t*", "\\xc3\\xa9|b", "[a\\xc3\\xa9]+", "b[^\\n]*", "(?m)^[^b]", "ab|b\\n*a", ".b", "\\t+|b", "bb", "b\\n+a?\\t?", "[\\x80-\\xff]+" };
static const int NP = sizeof(pats) / sizeof(*pats);
struct CM : reflex::Matcher { const char *t; int n, at, c; CM(reflex::Pattern &p, const char *t, int n, int c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (c && m > (size_t)c) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
typedef uint64_t U;
static const uint8_t *T; static int N, TAB;
static U nl(int i) { return T[i] == '\n'; }
static U line(int b) { U k = 1; for (int i = 0; i < b; ++i) k += nl(i); return k; }
static U step(U k, int i) { U tab = k + 1 + (~k & (U)(TAB - 1)); return sym_ite(T[i] == '\t', tab, k + ((T[i] & 0xC0) != 0x80)); }
static U col(int b) { U k = 0; for (int i = 0; i < b; ++i) k = sym_ite(T[i] == '\n', 0, step(k, i)); return k; }
static U border(int b) { U k = 0; for (int i = 0; i < b; ++i) k = sym_ite(T[i] == '\n', 0, k + 1); return k; }
static U single(int b, int e) { U v = 1; for (int i = b; i < e; ++i) v &= nl(i) ^ 1; return v; }
static U notab(int b, int e) { U v = 1; for (int i = b; i < e; ++i) v &= T[i] != '\t'; return v; }
static U cols(int b, int e) { U k0 = col(b), k = k0; for (int i = b; i < e; ++i) k = sym_ite(T[i] == '\n', k, step(k, i)); return k - k0; }
static U colEnd(int b, int e) { if (b == e) return col(b); U k = col(b); for (int i = b; i < e; ++i) k = sym_ite(T[i] == '\n', 0, step(k, i)); return sym_ite(k > 0, k - 1, 0); }
static void one(reflex::Matcher &m, int q, int b, int e) {
  switch (q) {
    case 0: sym_assert(m.lineno() == line(b), "lineno() is one plus the number of newlines before the match"); break;
    case 1: sym_assert(m.columno() == col(b), "columno() is the number of columns before the match on its line"); break;
    case 2: { U l = 1; for (int i = b; i < e; ++i) l += nl(i); sym_assert(m.lines() == l, "lines()"); break; }
    case 3: { U c = m.columns(); sym_assert(sym_ite(single(b, e) | notab(b, e), c, 0) == sym_ite(single(b, e) | notab(b, e), cols(b, e), 0), "columns()"); break; }
    case 4: sym_assert(m.columno_end() == colEnd(b, e), "columno_end() is the column of the last character"); break;
    case 5: sym_assert(m.lineno_end() == line(e), "lineno_end()"); break;
    case 6: sym_assert(m.border() == border(b), "border() is the byte offset on the line"); break;
    case 7: { int s = b; while (s > 0 && T[s - 1] != '\n') --s; int z = e; while (z < N && T[z] != '\n') ++z; std::string l = m.line(); sym_assert(l.size() == (size_t)(z - s), "line() is the line of the match"); for (size_t i = 0; i < l.size() && (int)i < z - s; ++i) sym_assert((uint8_t)l[i] == T[s + i], "line() has the bytes of the line"); break; }
    case 8: { const char *x = m.text(); U z = 0; for (int i = b; i < e; ++i) sym_assert((uint8_t)x[i - b] == T[i], "text() is the matched text"); sym_assert(x[e - b] == 0, "text() is terminated"); break; }
    case 9: { const char *x = m.bol(); int k = m.begin() - x; sym_assert((U)k == border(b), "bol() points to the line start"); break; }
    case 10: { int z = e; while (z < N && T[z] != '\n') ++z; const char *x = m.eol(); sym_assert(x - m.end() == z - e, "eol() points to the line end"); break; }
  } }
extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int job) {
  Gen g(job + 130001); const char *re = pats[job % NP]; std::string tm; int big = job % 4 == 3 ? 40 + g.r(30) : 0, n = 24 + g.r(30) + big, col0 = 0; /* some with a match longer than the buffer: the buffer is enlarged while matching */
  std::vector<bool> sy(n); int st = g.r(n - NSY), fl = big ? g.r(n - big) : 0; const char *fill = strchr(re, 'b') && re[1] == 'b' ? "bbb" : "aac"; for (int i = 0; i < NSY; ++i) sy[g.r(3) ? st + i : g.r(n)] = true;
  for (int i = 0; i < n; ++i) { if (col0 >= 7) { tm += '\n'; col0 = 0; continue; } if (big && i >= fl && i < fl + big && !sy[i]) { tm += fill[i % 3]; ++col0; continue; } if (sy[i]) { tm += g.r(4) ? "\5ab\n\t" : "\5b\xc3\xa9\n"; ++col0; continue; } char c = "aab\t\xc3\xa9\na"[g.r(8)]; tm += c; if (c == '\n') col0 = 0; else ++col0; }
  sym_note(re); sym_note(tm.c_str()); Text t(tm.c_str()); T = (uint8_t*)t.t; N = t.n; static const char *ot[] = { "T=8", "T=4", "T=2", "T=1" }; int o = g.r(4); TAB = ot[o][2] - '0'; if (g.r(3) == 0) reflex::HW = 0;
  reflex::Pattern p(re, "r"); int plan = sym_int(0, 5, "plan"), mode = g.r(3); sym_out(plan); static const int ch[] = { 0, 5, 1 };
  CM m(p, t.t, t.n, ch[sym_int(0, 2, "chunk")], ot[o]); int k = 0, q0 = g.r(11), prev = 0;
  for (;; ++k) { size_t r = mode == 0 ? m.scan() : mode == 1 ? m.find() : m.split(); if (!r) { if (mode == 0 && !m.at_end()) { m.input(); continue; } break; } if (k > 2 * n) { sym_fail("no progress"); break; }
    int b = m.first(), e = m.last(); sym_out(b); sym_out(e); sym_assert(b >= prev && b <= e && e <= N && m.size() == (size_t)(e - b), "first()/last() lie in the input, in order"); prev = e;
    for (int i = b; i < e; ++i) sym_assert((uint8_t)m.begin()[i - b] == T[i], "first() is the offset of the matched bytes");
    if (plan == 0) { one(m, 0, b, e); one(m, 1, b, e); } else if (plan == 1) { if (k % 2) for (int i = 0; i < 11; ++i) one(m, (q0 + i) % 11, b, e); } else if (plan == 2) { if (k % 5 == 4 || e == N) one(m, 1, b, e), one(m, 3, b, e), one(m, 4, b, e); } else if (plan == 3) one(m, (k + q0) % 11, b, e); else if (plan == 4) { if (k % 3 == 0) one(m, 7, b, e); else one(m, 6 + k % 2, b, e); one(m, 5, b, e); one(m, 1, b, e); } else { if (e > N * 2 / 3) for (int i = 10; i >= 0; --i) one(m, (q0 + i) % 11, b, e); } } }
