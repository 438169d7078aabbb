// Deterministic family of regular expressions (the index selects one).
#pragma once
#include <string>
#include <stdint.h>
#include <vector>
struct Gen { uint32_t s; std::string o; const char *al;
  explicit Gen(uint32_t seed, const char *alpha = "abc") : s(seed * 2654435761u + 12345u), al(alpha) { for (int i = 0; i < 4; ++i) r(2); }
  uint32_t r(uint32_t n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; }
  char ch() { return al[r(3)]; }
  void atom(int d) { switch (r(d > 0 ? 10 : 7)) {
      case 0: case 1: case 2: case 3: o += ch(); if (r(3) == 0) o += ch(); break;
      case 4: { char a = ch(), b = ch(); o += '['; if (r(4) == 0) o += '^'; o += a; if (b != a) o += b; o += ']'; break; }
      case 5: { o += "[a-c"; if (r(3) == 0) o += "x-z"; o += ']'; break; }
      case 6: if (r(3) == 0) o += "."; else { o += ch(); o += ch(); } break;
      default: o += '('; alt(d - 1); o += ')'; } }
  void quant() { switch (r(9)) { case 0: o += '*'; break; case 1: o += '+'; break; case 2: o += '?'; break; case 3: { static const char *q[] = { "{2}", "{1,2}", "{0,2}", "{2,3}", "{1,}", "{2,}", "{0,1}", "{3}" }; o += q[r(8)]; break; } default: ; } }
  void piece(int d) { size_t b = o.size(); atom(d); size_t n = o.size() - b; if (n > 1 && o[b] != '[' && o[b] != '(') { quant(); return; } quant(); }
  void seq(int d) { int n = 1 + r(3); for (int i = 0; i < n; ++i) piece(d); }
  void alt(int d) { int n = 1 + (r(3) == 0) + (r(4) == 0); for (int i = 0; i < n; ++i) { if (i) o += '|'; seq(d); } }
  std::string regex() { int n = 1 + r(4); for (int i = 0; i < n; ++i) { if (i) o += '|'; if (r(4) == 0) { int k = 1 + r(4); for (int j = 0; j < k; ++j) o += ch(); } else seq(2); } return o; }
  // search family: alternatives of similar length with an optional common prefix; tm receives a text template made of pieces of the words with up to ns bytes left open (\5: any of a, b, c, _)
  std::string words(std::string &tm, int ns) { std::string pre; int lp = r(3) ? 0 : 1 + r(9), m = 1 + r(r(4) ? 5 : 10), n = 1 + r(4); std::vector<std::string> w, lit; for (int i = 0; i < lp; ++i) pre += ch();
    for (int i = 0; i < n; ++i) { std::string a, l; int mi = m + (r(3) == 0 ? r(4) : 0); for (int k = 0; k < mi; ++k) { int z = r(12); if (z == 0) { char x = ch(), y = ch(); if (x == y) a += x; else { a += '['; a += x; a += y; a += ']'; } l += x; } else if (z == 1 && k > 0) { char x = ch(); a += x; a += r(2) ? '?' : '*'; if (r(2)) l += x; } else { char x = ch(); a += x; l += x; } } w.push_back(a); lit.push_back(pre + l); }
    o = pre; if (lp && n > 1) o += '('; for (int i = 0; i < n; ++i) { if (i) o += '|'; o += w[i]; } if (lp && n > 1) o += ')'; if (r(6) == 0) o += ch();
    std::string t; int pad = lp && r(2) ? 10 + r(8) : r(3); for (int i = 0; i < pad; ++i) t += '_'; int T = lp + m + 4 + r(8); while ((int)t.size() < pad + T) { const std::string &x = lit[r(n)]; int b = r(3) ? 0 : r(x.size()), e = r(3) ? (int)x.size() : b + 1 + r(x.size() - b); t += x.substr(b, e - b); if (r(4) == 0) t += "abc_"[r(4)]; } if (lp && r(2)) { for (int i = 0, q = 8 + r(12); i < q; ++i) t += '_'; if (r(2)) t += lit[0]; }
    std::vector<bool> sy(t.size()); int lo = pad ? pad - 1 : 0, span = t.size() - lo; if (span > T + 2) span = T + 2; int st = r(2) ? lo + r(span) : lo; for (int i = 0; i < ns; ++i) sy[st + i < (int)t.size() && st + i < lo + span ? st + i : lo + r(span)] = true; tm.clear(); for (size_t i = 0; i < t.size(); ++i) if (sy[i]) tm += "\5abc_"; else tm += t[i]; return o; }
};
