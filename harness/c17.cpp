// FuzzyMatcher: texts accepted by matches(), and matches found by find(), are within the permitted edits of a word of the pattern (character edits; NUL and newline are never inserted text and never substituted).
#include "mt.h"
#include "fuzzymatcher.h"
#ifndef NT
#define NT 4
#endif
#ifndef NW
#define NW 3
#endif
#ifndef MODE
#define MODE 0
#endif
// position automaton of a reference regex
struct Glushkov { std::vector<USet> cls; std::vector<std::vector<int> > follow; std::vector<int> first, last; std::vector<char> isLast; bool null;
  // placeholders for characters outside ASCII
  static USet wide(const CSet &s) { USet u; if (s.has(1)) u.add(0xF1); else if (s.has(2)) u.add(0x20AC); else if (s.has(3)) u.add(0x1F600); else if (s.has(4)) u.add(0xE0, 0xFF); else if (s.has(5)) u.add(0x3B1, 0x3C9); else if (s.has(6)) { u.add('a', 'z'); u.add(0xE0, 0xFF); } else for (int a = 0; a < 256; ++a) if (s.has(a)) { int b = a; while (b < 255 && s.has(b + 1)) ++b; u.add(a, b); a = b; } return u; }
  struct F { std::vector<int> fi, la; bool nu; }; Ref &r;
  explicit Glushkov(Ref &f) : r(f), null(false) { for (size_t k = 0; k < f.rules.size(); ++k) { F x = go(f.rules[k]); null |= x.nu; add(first, x.fi); add(last, x.la); } isLast.resize(cls.size(), 0); for (size_t k = 0; k < last.size(); ++k) isLast[last[k]] = 1; }
  static void add(std::vector<int> &a, const std::vector<int> &b) { for (size_t k = 0; k < b.size(); ++k) { bool dup = false; for (size_t j = 0; j < a.size(); ++j) dup |= a[j] == b[k]; if (!dup) a.push_back(b[k]); } }
  void link(const F &a, const F &b) { for (size_t k = 0; k < a.la.size(); ++k) add(follow[a.la[k]], b.fi); }
  F cat(F a, const F &b) { link(a, b); F x; x.fi = a.fi; if (a.nu) add(x.fi, b.fi); x.la = b.la; if (b.nu) add(x.la, a.la); x.nu = a.nu && b.nu; return x; }
  F eps() { F x; x.nu = true; return x; }
  F go(int n) { RNode &d = r.nd[n]; F x; x.nu = true; switch (d.k) { case N_SET: { x.nu = false; int p = cls.size(); cls.push_back(wide(d.s)); follow.push_back(std::vector<int>()); x.fi.push_back(p); x.la.push_back(p); return x; }
      case N_CAT: { int a = d.a, b = d.b; F y = go(a), z = go(b); return cat(y, z); } case N_ALT: { int a = d.a, b = d.b; F y = go(a), z = go(b); add(y.fi, z.fi); add(y.la, z.la); y.nu |= z.nu; return y; }
      case N_REP: { int a = d.a, lo = d.lo, hi = d.hi; F y = eps(); for (int k = 0; k < lo; ++k) y = cat(y, go(a)); if (hi < 0) { F z = go(a); link(z, z); z.nu = true; y = cat(y, z); } else for (int k = lo; k < hi; ++k) { F z = go(a); z.nu = true; y = cat(y, z); } return y; }
      default: return x; } } };
struct Edits { int max; bool ins, del, sub; };
// whole[e] is true if text t[0..n) is within e edits of a word
static void distance(Glushkov &g, const int *t, int n, const Edits &ed, std::vector<B> &whole) { int S = g.cls.size() + 1, E = ed.max + 1; // state S-1 is the start
  std::vector<B> D(S * E, 0), N; D[(S - 1) * E] = 1;
  for (int i = 0;; ++i) {
    if (ed.del) for (int e = 0; e + 1 < E; ++e) for (int s = 0; s < S; ++s) { const std::vector<int> &f = s == S - 1 ? g.first : g.follow[s]; for (size_t k = 0; k < f.size(); ++k) D[f[k] * E + e + 1] |= D[s * E + e]; }
    if (i == n) break; N.assign(S * E, 0); B free = (t[i] != 0) & (t[i] != '\n');
    for (int s = 0; s < S; ++s) for (int e = 0; e < E; ++e) { const std::vector<int> &f = s == S - 1 ? g.first : g.follow[s]; B d = D[s * E + e]; for (size_t k = 0; k < f.size(); ++k) { N[f[k] * E + e] |= d & g.cls[f[k]].in(t[i]); if (ed.sub && e + 1 < E) N[f[k] * E + e + 1] |= d & free; } if (ed.ins && e + 1 < E) N[s * E + e + 1] |= d & free; }
    D.swap(N); }
  whole.assign(E, 0); for (int e = 0; e < E; ++e) { if (e) whole[e] = whole[e - 1]; for (int s = 0; s < S; ++s) if (s == S - 1 ? g.null : g.isLast[s]) whole[e] |= D[s * E + e]; } }
struct FC { const char *re, *ref; bool lit; };
static const FC res[] = { { "abc", "abc", 1 }, { "ab_cd", "ab_cd", 1 }, { "a[0-9]+z", "a[0-9]+z", 0 }, { "ab|cd", "ab|cd", 0 }, { "a(b|c)d", "a(b|c)d", 0 }, { "ab*c", "ab*c", 0 }, { "abab", "abab", 1 }, { "aab", "aab", 1 }, { "a", "a", 1 }, { "ab", "ab", 1 }, { "abca|abd", "abca|abd", 0 }, { "(ab)+", "(ab)+", 0 }, { "a?bc", "a?bc", 0 }, { "abcd", "abcd", 1 }, { "ab(cd)?", "ab(cd)?", 0 }, { "a{1,3}b", "a{1,3}b", 0 }, { "a\\nb", "a\\nb", 1 }, { "[ab]c", "[ab]c", 0 }, { "abc|ab", "abc|ab", 0 },
  { "a\xc3\xb1o", "a\1o", 1 }, { "\xc3\xb1", "\1", 1 }, { "\xe2\x82\xac" "a", "\2a", 1 }, { "a\xf0\x9f\x98\x80", "a\3", 1 }, { "\xc3\xb1\xc3\xb1", "\1\1", 1 }, { "a[\xc3\xa0-\xc3\xbf]b", "a\4b", 0 }, { "[\xce\xb1-\xcf\x89]+", "\5+", 0 }, { "[a-z\xc3\xa0-\xc3\xbf]b", "\6b", 0 } };
static const Edits modes[] = { { 1, 1, 1, 1 }, { 2, 1, 1, 1 }, { 1, 1, 0, 0 }, { 1, 0, 1, 0 }, { 1, 0, 0, 1 }, { 2, 1, 1, 0 }, { 2, 1, 0, 1 }, { 2, 0, 1, 1 }, { 0, 1, 1, 1 }, { 3, 1, 1, 1 } };
static const int NR = sizeof(res) / sizeof(*res), NM = sizeof(modes) / sizeof(*modes), NU = 19;
// characters of the text: lengths are concrete, code points symbolic
struct Chars { int n, len, cp[16], at[17]; uint8_t b[40]; bool wide;
  Chars(int most, bool w) : n(sym_int(0, most, "length")), len(0), wide(w) { for (int i = 0; i < n; ++i) { int k = w ? sym_int(1, 4, "char") : 1; at[i] = len; sym_make(b + len, k, "text"); B ok = utf8at(b + len, k, cp[i]); sym_assume(ok); len += k; } at[n] = len; }
  int index(size_t x) { for (int i = 0; i <= n; ++i) if ((size_t)at[i] == x) return i; return -1; } };
extern "C" int harness_jobs() { return NR * NM; }
extern "C" void harness(int job) { const FC &fc = res[job / NM]; bool wide = job / NM >= NU; Edits ed = modes[job % NM]; bool all = ed.ins && ed.del && ed.sub; uint16_t mx = ed.max; if (!all) mx |= (ed.ins ? reflex::FuzzyMatcher::INS + 0 : 0) | (ed.del ? reflex::FuzzyMatcher::DEL + 0 : 0) | (ed.sub ? reflex::FuzzyMatcher::SUB + 0 : 0);
  { std::string s = fc.re; s += " max "; s += (char)('0' + ed.max); if (ed.ins) s += " ins"; if (ed.del) s += " del"; if (ed.sub) s += " sub"; sym_note(s.c_str()); }
  Ref ref(fc.ref); Glushkov g(ref); reflex::Pattern pat(wide ? reflex::Matcher::convert(fc.re, reflex::convert_flag::unicode) : std::string(fc.re), "r"); Chars t(wide ? NW : NT, wide); int n = t.n;
  reflex::FuzzyMatcher m(pat, mx, reflex::Input((const char*)t.b, (size_t)t.len));
#if MODE == 2
  reflex::FuzzyMatcher c(m), d; c.input(reflex::Input((const char*)t.b, (size_t)t.len)); d = m; d.input(reflex::Input((const char*)t.b, (size_t)t.len)); size_t r = m.matches(), rc = c.matches(), rd = d.matches(); sym_out(r); sym_assert(rc == r && c.edits() == m.edits(), "a copied matcher matches differently"); sym_assert(rd == r && d.edits() == m.edits(), "an assigned matcher matches differently");
#elif MODE == 0
  std::vector<B> w; distance(g, t.cp, n, ed, w); size_t r = m.matches(); sym_out(r);
  if (r) { int e = m.edits(); sym_out(e); sym_assert(e <= ed.max, "edits() exceeds the maximum"); sym_assert(w[ed.max], "matches() accepts a text that is not within the permitted edits"); sym_assert(w[e], "edits() is less than the distance of the text"); }
  else { sym_assert(w[0] ^ 1, "matches() rejects an exact match"); if (fc.lit) sym_assert(w[ed.max] ^ 1, "matches() rejects a text within the permitted edits of a string pattern"); }
#else
  int pos = 0; B found = 0; for (int k = 0; k <= n; ++k) { size_t r = m.find(); sym_out(r); if (!r) break; size_t b = m.first(), l = m.size(); sym_out(b); sym_out(l); int i = t.index(b), j = t.index(b + l); if (i < 0 || j < 0) { sym_fail("a match splits a character"); return; } sym_assert(l > 0 && i >= pos, "find() match lies after the previous one"); std::vector<B> w; distance(g, t.cp + i, j - i, ed, w); int e = m.edits(); sym_out(e); sym_assert(e <= ed.max, "edits() exceeds the maximum"); sym_assert(w[ed.max], "find() reports a match that is not within the permitted edits"); sym_assert(w[e], "edits() is less than the distance of the match"); pos = j; found = 1; }
  if (!found) for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) { std::vector<B> w; Edits none = { 0, 0, 0, 0 }; distance(g, t.cp + i, j - i, none, w); sym_assert(w[0] ^ 1, "find() misses an exact match"); }
#endif
}
