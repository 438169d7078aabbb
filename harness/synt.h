// Deterministic family of regexes in all documented spellings; the meaning is built alongside as reference nodes (no parsing).
#pragma once
#include "ref.h"
struct Synt { uint32_t s; std::string o, opt; Ref *f; bool i, st, x, q; char e; char al[5]; int budget;
  explicit Synt(uint32_t seed) : s(seed * 2654435761u + 777u), f(0), i(false), st(false), x(false), q(false), e('\\'), budget(8) { for (int k = 0; k < 4; ++k) r(2); }
  uint32_t r(uint32_t n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; }
  void build(Ref &ref) { f = &ref; static const char pool[] = "abAkZz059_ \n\t#\"-]^.*|\\/{}()@`\x7f\x80\xc3\xff"; for (int k = 0; k < 4; ++k) al[k] = pool[r(sizeof(pool) - 1)]; if (r(2)) { al[0] = 'a'; al[1] = 'b'; } if (r(3) == 0 && alnum(al[0]) && al[0] > '9') al[1] = al[0] ^ 32;
    if (r(8) == 0) { e = "%~;"[r(3)]; } if (e == ';') e = '%'; if (e != '\\') { opt += "e="; opt += e; opt += ';'; }
    if (r(4) == 0) { opt += 'i'; i = true; } if (r(6) == 0) { opt += 's'; st = true; } if (r(4) == 0) { opt += 'x'; x = true; } if (r(5) == 0) { opt += 'q'; q = true; }
    if (r(5) == 0) { o += "(?"; int any = 0; if (r(2)) { o += 'i'; i = true; any = 1; } if (r(3) == 0) { o += 's'; st = true; any = 1; } if (r(3) == 0) { o += 'x'; x = true; any = 1; } if (!any) { o += 'm'; } if (r(3) == 0) { o += '-'; if (r(2)) { o += 'i'; i = false; } else { o += 's'; st = false; } } o += ')'; }
    int n = 1 + r(3); for (int k = 0; k < n; ++k) { if (k) o += '|'; ws(); ref.rules.push_back(seq(2)); ref.neg.push_back(false); ref.lazyRule.push_back(false); } }
  void ws() { if (!x) return; if (r(4) == 0) o += " \t\n"[r(3)]; if (r(12) == 0) o += "# c*(\n"; }
  void hex(int c) { static const char h[] = "0123456789abcdef"; o += e; o += 'x'; if (r(3) == 0) { o += '{'; o += h[c >> 4 & 15]; o += h[c & 15]; o += '}'; } else { o += h[c >> 4 & 15]; o += h[c & 15]; } }
  void oct(int c) { o += e; o += '0'; o += '0' + (c >> 6 & 3); o += '0' + (c >> 3 & 7); o += '0' + (c & 7); }
  static bool alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  bool plain(int c) { if (alnum(c) || c == '_' || c >= 0x80) return true; if (c == e || strchr(".?*+|()[]{}^$", c)) return false; if (c == ' ' || c == '\t' || c == '\n' || c == '#') return !x; if (c == '"') return !q; return c > 32; }
  int one(int c) { CSet k; k.add(c & 255); if (i) k.fold(); return f->setNode(k); }
  int chr() { int c = (unsigned char)al[r(4)]; switch (r(9)) {
      case 0: hex(c); break; case 1: oct(c); break; case 2: o += e; o += 'Q'; o += (char)c; o += e; o += 'E'; break;
      case 3: if (q && c != e) { o += '"'; if (c == '"') o += e; o += (char)c; o += '"'; break; }
      case 4: if (!alnum(c) && c < 0x80 && c > 32 && c != '<' && c != '>' && c != '_') { o += e; o += (char)c; break; }
      default: if (plain(c)) o += (char)c; else if (c == '\n') { o += e; o += 'n'; } else if (c == '\t') { o += e; o += 't'; } else if (c == e || !(c > 32 && c < 127)) hex(c); else { o += e; o += (char)c; } }
    return one(c); }
  int str() { int n = 2 + r(2), t = -1; if (r(2)) { o += e; o += 'Q'; for (int k = 0; k < n; ++k) { int c = (unsigned char)al[r(4)]; if (c == e) c = 'a'; o += (char)c; t = f->cat(t, one(c)); } o += e; o += 'E'; } else { for (int k = 0; k < n; ++k) { int y = chr(); t = f->cat(t, y); } return -1 - t; } return f->node(N_CAT, t, f->node(N_EPS)); }
  void lch(int c) { if (c == ']' || c == '\\' || c == '-' || c == '^' || c == '[' || c == e || c == '&' || c == '|') { if (r(2) && c != e) { o += e; o += (char)c; } else hex(c); } else if (r(6) == 0) hex(c); else if (r(8) == 0) oct(c); else if (c == '\n' && r(2)) { o += e; o += 'n'; } else o += (char)c; }
  CSet cls(const char *n) { return Ref::named(n, strlen(n)); }
  int list() { CSet t; bool ng = r(4) == 0; o += '['; if (ng) o += '^'; int n = 1 + r(4); bool lastc = false; for (int k = 0; k < n; ++k) { switch (r(8)) {
        case 0: { static const char *nm[] = { "ascii", "space", "xdigit", "cntrl", "print", "alnum", "alpha", "blank", "digit", "graph", "punct", "word", "lower", "upper" }; const char *c = nm[r(i ? 12 : 14)]; o += "[:"; o += c; o += ":]"; t |= cls(c); break; }
        case 1: { static const char es[] = "dwshDWSHlL"; char c = es[r(i ? 8 : 10)]; o += e; o += c; CSet k2 = cls(strchr("dD", c) ? "digit" : strchr("wW", c) ? "word" : strchr("sS", c) ? "space" : strchr("hH", c) ? "blank" : (c | 32) == 'l' ? "lower" : "upper"); if (c < 'a') k2.inv(); t |= k2; break; }
        case 2: case 3: { int a = (unsigned char)al[r(4)], b = (unsigned char)al[r(4)]; if (a > b) { int z = a; a = b; b = z; } lch(a); o += '-'; lch(b); CSet k2; k2.add(a, b); if (i) k2.fold(); t |= k2; break; }
        case 4: if (k == 0 && !ng) { o += ']'; t.add(']'); break; }
        default: { int c = (unsigned char)al[r(4)]; lch(c); CSet k2; k2.add(c); if (i) k2.fold(); t |= k2; } } }
    if (r(8) == 0) { o += '-'; t.add('-'); } o += ']'; if (ng) t.inv(); (void)lastc; return f->setNode(t); }
  int esc() { static const char es[] = "dDwWsShHlLN"; char c = es[r(i ? 8 : 11)]; CSet k; o += e; if (c == 'N') { o += c; k.add('\n'); k.inv(); return f->setNode(k); }
    if (r(3) == 0) { static const char *nm[] = { "ASCII", "Space", "XDigit", "Cntrl", "Print", "Alnum", "Alpha", "Blank", "Digit", "Graph", "Punct", "Word", "Lower", "Upper" }; const char *n = nm[r(i ? 12 : 14)]; bool P = r(3) == 0; o += P ? 'P' : 'p'; o += '{'; o += n; o += '}'; k = cls(n); if (P) k.inv(); return f->setNode(k); }
    o += c; k = cls(strchr("dD", c) ? "digit" : strchr("wW", c) ? "word" : strchr("sS", c) ? "space" : strchr("hH", c) ? "blank" : (c | 32) == 'l' ? "lower" : "upper"); if (c < 'a') k.inv(); return f->setNode(k); }
  int group(int d) { bool si = i, ss = st, sx = x, sq = q; o += '('; switch (r(6)) { case 0: o += "?:"; break; case 1: o += "?i:"; i = true; break; case 2: o += "?-i:"; i = false; break; case 3: o += "?s:"; st = true; break; case 4: if (r(2)) { o += "?x:"; x = true; } else { o += "?q-s:"; q = true; st = false; } break; default: ; }
    int t = alt(d - 1); o += ')'; i = si; st = ss; x = sx; q = sq; return t; }
  int atom(int d, bool &multi) { multi = false; switch (r(d > 0 ? 12 : 9)) { case 0: case 1: return list(); case 2: { o += '.'; CSet k; if (!st) k.add('\n'); k.inv(); return f->setNode(k); } case 3: return esc(); case 4: { int t = str(); if (t < -1) { multi = true; return -1 - t; } return t; } case 5: case 6: case 7: case 8: return chr(); default: return group(d); } }
  // alternation of plain strings (built into the tree DFA): every spelling of a byte
  void strings(Ref &ref) { f = &ref; static const char pool[] = "aAbBzZ09_ \a\b\t\n\v\f\r#\"-]}/.*+?|(){}[^$\\<&@\x80\xff"; for (int k = 0; k < 4; ++k) al[k] = pool[r(sizeof(pool) - 1)]; if (r(3) == 0) al[1] = al[0]; if (r(5) == 0) { e = '%'; opt += "e=%;"; } if (r(3) == 0) { opt += 'i'; i = true; } if (r(8) == 0) { opt += 's'; } if (r(8) == 0) { opt += 'q'; q = true; }
    int n = 2 + r(4); for (int k = 0; k < n; ++k) { if (k) o += '|'; int m = 1 + r(3), t = -1; bool qt = r(4) == 0; if (qt) { o += e; o += 'Q'; }
      for (int j = 0; j < m; ++j) { int c = (unsigned char)al[r(4)]; if (c == e) c = 'q'; if (qt) { o += (char)c; if (r(6) == 0) { o += e; o += 'E'; o += e; o += 'Q'; } } else if (c >= '\a' && c <= '\r' && c != '\b' && (j == 0 || r(3))) { o += e; o += "abtnvfr"[c - '\a']; } else if (alnum(c) || c == '_' || c >= 0x80 || c < 32 || c == ' ' || c == '-' || c == '#' || c == '@' || c == '/' || c == '&') o += (char)c; else if (c == '<') { o += e; o += "Q<"; o += e; o += 'E'; } else { o += e; o += (char)c; } t = f->cat(t, one(c)); }
      if (qt) { o += e; o += 'E'; } ref.rules.push_back(t); ref.neg.push_back(false); ref.lazyRule.push_back(false); } }
  int quant(int t) { static const struct { const char *q; int lo, hi; } qs[] = { { "*", 0, -1 }, { "+", 1, -1 }, { "?", 0, 1 }, { "{2}", 2, 2 }, { "{1,2}", 1, 2 }, { "{0,2}", 0, 2 }, { "{1,}", 1, -1 }, { "{0}", 0, 0 } }; if (r(3)) return t; int k = r(8); if (x && r(4) == 0) o += ' '; o += qs[k].q; int y = f->node(N_REP, t); f->nd[y].lo = qs[k].lo; f->nd[y].hi = qs[k].hi; return y; }
  int seq(int d) { int n = 1 + r(3), t = -1; for (int k = 0; k < n; ++k) { bool m; int y = atom(d, m); if (!m) y = quant(y); t = f->cat(t, y); ws(); if (r(20) == 0) o += "(?#x)"; } return t; }
  int alt(int d) { ws(); int t = seq(d); for (int n = r(3); n > 0; --n) { o += '|'; ws(); int y = seq(d); t = f->node(N_ALT, t, y); } return t; }
};
