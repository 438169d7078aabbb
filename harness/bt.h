// A backtracking regex matcher used as the oracle of C18 (and as the model of libpcre2): literals, lists, . escapes, groups, alternation, greedy and lazy repeats, ^ \b \B (?=).
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <stdint.h>
struct BT {
  enum K { SET, CAT, ALT, REP, GRP, EPS, BOL, WB, NWB, LOOK }; struct Nd { K k; uint64_t s[4]; int a, b, lo, hi; bool lazy; int g; }; std::vector<Nd> nd; const char *p; bool bad, posix, ml; int root, groups; std::vector<std::pair<int,int> > cap; const char *T; int N; bool bol0, wrd0; bool nonempty; int start;
  bool partial, hit, nullable, look; int used; // hit: the end of the text was inspected
  typedef std::function<bool(int)> Kt;
  BT() : bad(false) { } BT(const char *re, bool posix) { init(re, posix); }
  void init(const char *re, bool px) { nd.clear(); p = re; bad = false; posix = px; groups = 0; bol0 = true; wrd0 = false; partial = false; look = false; ml = true; root = alts(); if (*p) bad = true; cap.resize(groups + 1); }
  int mk(K k, int a = -1, int b = -1) { Nd n; n.k = k; n.a = a; n.b = b; n.lo = n.hi = n.g = 0; n.lazy = false; n.s[0] = n.s[1] = n.s[2] = n.s[3] = 0; nd.push_back(n); return nd.size() - 1; }
  void add(int x, int c) { nd[x].s[c >> 6 & 3] |= 1ULL << (c & 63); } void addr(int x, int a, int b) { for (; a <= b; ++a) add(x, a); } void inv(int x) { for (int i = 0; i < 4; ++i) nd[x].s[i] = ~nd[x].s[i]; }
  int alts() { int x = seq(); while (*p == '|') { ++p; int y = seq(); x = mk(ALT, x, y); } return x; }
  int seq() { int x = -1; while (*p && *p != '|' && *p != ')') { int y = quant(); x = x < 0 ? y : mk(CAT, x, y); } return x < 0 ? mk(EPS) : x; }
  int num() { int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + *p++ - '0'; return v; }
  int quant() { int x = atom(); for (;;) { int lo, hi; if (*p == '*') { lo = 0; hi = -1; ++p; } else if (*p == '+') { lo = 1; hi = -1; ++p; } else if (*p == '?') { lo = 0; hi = 1; ++p; } else if (*p == '{') { ++p; lo = hi = num(); if (*p == ',') { ++p; hi = *p == '}' ? -1 : num(); } ++p; } else return x; int y = mk(REP, x); nd[y].lo = lo; nd[y].hi = hi; if (*p == '?') { nd[y].lazy = true; ++p; } x = y; } }
  void escape(int x, char c) { switch (c) { case 'd': addr(x, '0', '9'); break; case 'w': addr(x, '0', '9'); addr(x, 'a', 'z'); addr(x, 'A', 'Z'); add(x, '_'); break; case 's': addr(x, 9, 13); add(x, ' '); break; case 'S': addr(x, 9, 13); add(x, ' '); inv(x); break; case 'n': add(x, 10); break; default: add(x, (unsigned char)c); } }
  int atom() { char c = *p++; if (c == '(') { if (p[0] == '?' && p[1] == ':') { p += 2; int x = alts(); ++p; return x; } if (p[0] == '?' && p[1] == '=') { p += 2; int x = alts(); ++p; return mk(LOOK, x); } int g = ++groups, x = alts(); if (*p == ')') ++p; else bad = true; int y = mk(GRP, x); nd[y].g = g; return y; }
    if (c == '[') { int x = mk(SET); bool ng = *p == '^'; if (ng) ++p; while (*p && *p != ']') { if (*p == '\\') { ++p; escape(x, *p++); } else if (p[1] == '-' && p[2] != ']') { addr(x, p[0], p[2]); p += 3; } else add(x, (unsigned char)*p++); } ++p; if (ng) inv(x); return x; }
    if (c == '.') { int x = mk(SET); add(x, 10); inv(x); return x; } if (c == '^') return mk(BOL);
    if (c == '\\') { c = *p++; if (c == 'b') { look = true; return mk(WB); } if (c == 'B') { look = true; return mk(NWB); } int x = mk(SET); escape(x, c); return x; } int x = mk(SET); add(x, (unsigned char)c); return x; }
  static bool wc(char c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); }
  bool word(int i) { return i < 0 ? wrd0 : i >= N ? false : wc(T[i]); }
  bool run(int x, int i, const Kt &k) { if (hit) return false; Nd &d = nd[x]; switch (d.k) {
      case SET: if (i >= N) { end(i); return false; } { bool in = false; unsigned char c = T[i]; uint8_t tab[256]; for (int w = 0; w < 256; ++w) tab[w] = d.s[w >> 6] >> (w & 63) & 1; in = tab[c]; return in && k(i + 1); }
      case CAT: { int b = d.b; return run(d.a, i, [&, b](int j) { return run(b, j, k); }); }
      case ALT: { int b = d.b; return run(d.a, i, k) || run(b, i, k); }
      case GRP: { int g = d.g; std::pair<int,int> old = cap[g]; if (run(d.a, i, [&, g, i](int j) { std::pair<int,int> o = cap[g]; cap[g] = std::make_pair(i, j); if (k(j)) return true; cap[g] = o; return false; })) return true; cap[g] = old; return false; }
      case REP: return rep(x, 0, i, k);
      case BOL: return (i == 0 ? bol0 : ml && T[i - 1] == '\n') && k(i);
      case WB: case NWB: if (i > 0 && i - 1 < used) used = i - 1; if (i >= N) { end(i); if (hit) return false; } return (word(i - 1) != word(i)) == (d.k == WB) && k(i);
      case LOOK: return run(d.a, i, [](int) { return true; }) && k(i);
      default: return k(i); } }
  bool rep(int x, int c, int i, const Kt &k) { int lo = nd[x].lo, hi = nd[x].hi; bool lz = nd[x].lazy; if (hit) return false; if (lz && c >= lo && k(i)) return true; if (hi < 0 || c < hi) if (run(nd[x].a, i, [&, c, i, x, lo](int j) { return !(j == i && c >= lo) && rep(x, c + 1, j, k); })) return true; return !lz && c >= lo && !hit && k(i); }
  void end(int i) { if (partial && (i > used || look || nullable)) hit = true; }
  // the end of the match at i or -1; with ne only non-empty matches count
  int match(const std::string &t, int i, bool ne) { return match(t.data(), t.size(), i, ne); }
  int match(const char *t, int n, int i, bool ne) { T = t; N = n; used = i; hit = false; cap.assign(cap.size(), std::make_pair(-1, -1)); int best = -1; std::vector<std::pair<int,int> > bc; bool r = run(root, i, [&](int j) { if (ne && j == i) return false; if (!posix) { best = j; return true; } if (j > best) { best = j; bc = cap; } return false; }); if (posix) cap = bc.empty() ? cap : bc; if (hit) return -2; return best; }
};
