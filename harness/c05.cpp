// Anchors, boundaries, lookahead, lazy quantifiers and negative patterns, with find, scan, matches and (find) the N option.
#include "mt.h"
namespace reflex { extern uint64_t HW; }
#ifndef NT
#define NT 6
#endif
struct Ctx { const char *re, *al; }; // al: the four bytes the text is made of
static const Ctx cases[] = {
#include "cases_ctx.inc"
};
static const int NC = sizeof(cases) / sizeof(*cases);
struct Neg { Expect &x; Ref &f; Neg(Expect &x, Ref &f) : x(x), f(f) { }
  B raw(int r, int i, int j) { return f.sp[f.rules[r]].at(i, j); }
  B isNeg(int i, int j) { B v = 0; for (int r = 0; r < x.R; ++r) if (f.neg[r]) v |= raw(r, i, j); return v & x.best(i, j); } // the longest match is (also) one of a negative rule
  B posRule(int r, int i, int j) { B v = x.best(i, j) & raw(r, i, j) & (isNeg(i, j) ^ 1); for (int k = 0; k < r; ++k) v &= (raw(k, i, j) ^ 1) | (x.first[(k * (x.n + 1) + i) * (x.n + 1) + j] ^ 1); return f.neg[r] ? 0 : x.bestRule(r, i, j) & (isNeg(i, j) ^ 1); } };
// where a search that started at pos and has returned nothing can be, going over negative matches
static std::vector<B> reach(Expect &x, Neg &g, int pos, bool find, bool nopt) { std::vector<B> v(x.n + 1, 0); v[pos] = 1; for (int p = pos; p < x.n; ++p) { if (find) { B e = nopt ? x.any[p * (x.n + 1) + p] ^ 1 : 1; v[p + 1] |= v[p] & x.none(p) & e; } for (int j = p + 1; j <= x.n; ++j) v[j] |= v[p] & g.isNeg(p, j); } return v; }
#ifdef ONLY // the modes of C02, C03, C04
static const int only[] = { ONLY };
enum { NM = sizeof(only) / sizeof(*only) };
#else
static const int only[] = { 0, 1, 2, 3, 4, 5 };
enum { NM = 6 };
#endif
extern "C" int harness_jobs() { return NC * NM; }
extern "C" void harness(int job) {
  const Ctx &c = cases[job % NC]; int mode = only[job / NC]; std::string tm; for (int i = 0; i < NT; ++i) { tm += '\5'; tm += c.al; }
  sym_note(c.re); bool nopt = mode == 4; if (mode == 1) reflex::HW = 0;
  reflex::Pattern p(c.re, "r"); Ref f(c.re); f.crlf = strchr(c.al, '\r') != 0; sym_assert(!f.bad, "reference parser accepts the pattern"); int len = mode == 3 ? sym_int(0, NT, "len") : NT; Text t(tm.c_str()); int n = len; Expect x; x.build(f, t.t, n); Neg g(x, f);
  char *buf = new char[n + 1]; memcpy(buf, t.t, n); buf[n] = 0; reflex::Matcher m(p, reflex::Input(buf, n), nopt ? "N" : "");
  bool anyNeg = false; for (int r = 0; r < x.R; ++r) anyNeg |= f.neg[r];
  if (mode == 3) { if (anyNeg) sym_stop(); size_t r = m.matches() ? m.accept() : 0; sym_out(r); if (!r) sym_assert((x.fullAny() ^ 1) | x.lookFull /* a rule with trailing context may be preferred for the whole text */, "matches() rejects a text the pattern matches"); else sym_assert(r <= (size_t)x.R && x.full(r - 1), "matches() reports the first rule that matches the text"); return; }
  if (mode == 5) { for (int i = 0; i <= n; ++i) if (x.any[i * (n + 1) + i]) { sym_stop(); return; } // separators that can be empty are outside the property
    int pos = 0; for (int k = 0;; ++k) { size_t r = m.split(); sym_out(r); if (!r) { sym_fail("split() ended without the final piece"); break; } std::vector<B> v = reach(x, g, pos, true, false);
      int b = m.first(), l = m.size(); sym_out(b); sym_out(l); sym_assert(b == pos && b + l <= n, "split piece starts after the previous separator"); if (b != pos || b + l > n) break; for (int i = 0; i < l; ++i) sym_assert(m.begin()[i] == t.t[b + i], "the piece is the bytes between the separators");
      if (r == reflex::Matcher::Const::EMPTY) { sym_assert(b + l == n && v[n], "the final piece contains no separator and reaches the end"); sym_assert(m.split() == 0, "split() returns 0 after the final piece"); break; }
      sym_assert(r <= (size_t)x.R && v[b + l], "a piece contains no separator"); if (r > (size_t)x.R) break; int e = -1; for (int j = b + l + 1; j <= n; ++j) if (g.posRule(r - 1, b + l, j)) { e = j; break; }
      sym_assert(e >= 0, "the separator after a piece is the longest match of the reported rule"); if (e < 0) break; pos = e; if (k > n + 1) { sym_fail("too many pieces"); break; } } return; }
  int pos = 0;
  for (int k = 0;; ++k) { size_t r = mode == 2 ? m.scan() : m.find(); sym_out(r); std::vector<B> v = reach(x, g, pos, mode != 2, nopt);
    if (!r) { if (mode == 2) { B ok = 0; for (int q = pos; q <= n; ++q) ok |= v[q] & (q == n ? (B)1 : x.none(q)); sym_assert(ok, "scan() returned 0 although a rule matches here"); } else sym_assert(v[n], "find() returned 0 although a match is left"); break; }
    int b = m.first(), l = m.size(); sym_out(b); sym_out(l); sym_assert(r <= (size_t)x.R && b >= pos && b + l <= n && (l > 0 || nopt), "result lies after the previous one"); if (b > n || b + l > n || r > (size_t)x.R) break;
    sym_assert(v[b], "an earlier match was missed, or a negative match was not skipped");
    if (l == 0) { sym_assert(x.any[b * (n + 1) + b] & x.none(b), "an empty match is reported only where nothing longer matches"); pos = b + 1; }
    else { sym_assert(g.posRule(r - 1, b, b + l), "the longest match and the first rule that satisfies its context"); pos = b + l; }
    for (int i = 0; i < l; ++i) sym_assert(m.begin()[i] == t.t[b + i], "the text is the matched bytes");
    if (k > 2 * n) { sym_fail("more results than input bytes"); break; } } }
