// Deterministic family of regexes in the converter's source syntax; the meaning is built alongside as reference nodes (no parsing).
#pragma once
#include "ref.h"
#include <reflex/convert.h>
#include <map>
struct Conv { uint32_t s; std::string o; Ref *f; bool u, i, st, x, lex, bre, recap, u4, nnl, mac, empty, valid, q; reflex::convert_flag_type fl; int al[4]; std::map<std::string,std::string> macros; bool contOk;
  explicit Conv(uint32_t seed) : s(seed * 2654435761u + 4242u), f(0), u(false), i(false), st(false), x(false), lex(false), bre(false), recap(false), u4(false), nnl(false), mac(false), empty(false), valid(false), q(false), fl(reflex::convert_flag::none), contOk(false) { for (int k = 0; k < 4; ++k) r(2); }
  uint32_t r(uint32_t n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; }
  int top() const { return u ? 0x10FFFF : 0xFF; }
  static bool letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool alnum(int c) { return letter(c) || (c >= '0' && c <= '9'); }
  int node(USet k) { if (u) { USet sur; sur.add(0xD800, 0xDFFF); USet z = k; z &= sur; if (!z.r.empty()) valid = true; k.minus(sur); return f->usetNode(k); } CSet c; for (size_t a = 0; a < k.r.size(); ++a) for (int b = k.r[a].first; b <= k.r[a].second && b < 256; ++b) c.add(b); return f->setNode(c); }
  void build(Ref &ref) { f = &ref;
    if (r(2)) { u = true; fl |= reflex::convert_flag::unicode; } if (r(4) == 0) { i = true; fl |= reflex::convert_flag::anycase; } if (r(5) == 0) { st = true; fl |= reflex::convert_flag::dotall; } if (r(4) == 0) { x = true; fl |= reflex::convert_flag::freespace; }
    if (r(4) == 0) { lex = true; fl |= reflex::convert_flag::lex; } if (!lex && r(5) == 0) { bre = true; fl |= reflex::convert_flag::basic; } if (r(4) == 0) { recap = true; fl |= reflex::convert_flag::recap; } if (u && r(3) == 0) { u4 = true; fl |= reflex::convert_flag::u4; } if (r(5) == 0) { nnl = true; fl |= reflex::convert_flag::notnewline; }
    if (!bre && r(4) == 0) { mac = true; macros["m1"] = "ab|c"; macros["vowel"] = "[aeiou]"; macros["_d"] = "[0-9]"; macros["up"] = "[A-Z]"; }
    if (!bre && r(4) == 0) { o += "(?"; if (r(2)) { o += 'i'; i = true; } if (r(3) == 0) { o += 's'; st = true; } if (r(3) == 0) { o += 'x'; x = true; } if (r(3) == 0) { o += 'u'; u = true; } if (o.size() == 2) { o += 'm'; modm = true; } o += ')'; }
    static const char pool[] = "abkZz059_ \n\t#-]^.*|\\/{}()&\"@`~"; static const int wide[] = { 0xE9, 0x3B1, 0x20AC, 0x1F600, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFF, 0xFFF, 0x1000, 0x3FFFF }; static const int bytes[] = { 0x80, 0xC3, 0xFF, 0xBF };
    for (int k = 0; k < 4; ++k) { if (k < 2 || r(2)) al[k] = pool[r(sizeof(pool) - 1)]; else al[k] = u ? wide[r(16)] : bytes[r(4)]; } if (r(2)) { al[0] = 'a'; if (r(2)) al[1] = 'b'; }
    int n = 1 + r(3); for (int k = 0; k < n; ++k) { if (k) o += bre ? "\\|" : "|"; ws(); ref.rules.push_back(rule()); ref.neg.push_back(false); ref.lazyRule.push_back(false); } }
  bool lexfs() const { return lex && (fl & reflex::convert_flag::freespace); } // # is literal
  void ws() { if (!x) return; if (r(4) == 0) o += " \t\n"[r(3)]; if (!lexfs() && r(10) == 0) o += "# a[(|+{\n"; }
  void hexd(int c, int n) { static const char h[] = "0123456789abcdef"; bool z = n > 0; for (int k = (n ? n : 6) - 1; k >= 0; --k) { int d = c >> 4 * k & 15; if (d || z || k == 0) { o += h[d]; z = true; } } }
  void raw(int c) { if (!u || c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  void code(int c) { int how = r(5); if (u && c >= 0x80 && how < 2) how = 2; // \xHH and octal are bytes
    if (how == 0) { o += "\\x"; hexd(c, 2); } else if (how == 1) { o += "\\0"; o += '0' + (c >> 6 & 3); o += '0' + (c >> 3 & 7); o += '0' + (c & 7); }
    else if (how == 3 && u4) { if (c < 0x10000) { o += "\\u"; hexd(c, 4); } else { o += "\\u"; hexd(0xD800 + ((c - 0x10000) >> 10), 4); o += "\\u"; hexd(0xDC00 + (c & 0x3FF), 4); } }
    else if (u || c < 0x80) { o += r(2) ? "\\x{" : "\\u{"; hexd(c, 0); o += '}'; } else { o += "\\x"; hexd(c, 2); } }
  bool meta(int c) { return c < 0x80 && strchr(".\\?*+|()[]{}^$", c); }
  bool brel(int c) { return bre && c < 0x80 && strchr("?+|(){}", c); }
  bool plain(int c) { if (brel(c)) return true; if (meta(c)) return false; if (c == ' ' || c == '\t' || c == '\n' || c == '#') return !x || (c == '#' && lexfs()); if (c == '"' || c == '/') return !lex; return c > 31; }
  int one(int c) { USet k; k.add(c); if (i) k.fold(); return node(k); }
  int chr() { int c = al[r(4)]; switch (r(8)) {
      case 0: code(c); break;
      case 1: if (c != '\\') { o += "\\Q"; raw(c); o += "\\E"; break; }
      case 2: if (lex && c != '\\') { o += '"'; if (c == '"') o += '\\'; raw(c); o += '"'; break; }
      default: if (plain(c)) raw(c); else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == ' ' || (bre && brel(c))) code(c); else { o += '\\'; o += (char)c; } }
    return one(c); }
  int str() { int n = 2 + r(2), t = -1; bool qt = lex && r(2); o += qt ? "\"" : "\\Q"; for (int k = 0; k < n; ++k) { int c = al[r(4)]; if (c == '\\' || (c == '"' && qt)) c = 'b'; raw(c); t = f->cat(t, one(c)); } o += qt ? "\"" : "\\E"; return t; }
  USet named(const char *n) { USet k; CSet c = Ref::named(n, strlen(n)); for (int b = 0; b < 256; ++b) if (c.has(b)) k.add(b); return k; }
  void lch(int c, bool first) { if (c == ']' || c == '\\' || c == '-' || c == '^' || c == '[' || c == '&' || c == '|' || c == '{') { if (r(2)) { o += '\\'; o += (char)c; } else code(c); } else if (r(5) == 0) code(c); else if (c == '\n' && r(2)) o += "\\n"; else raw(c); }
  USet ucl(int k) { static const char *const nm[] = { "Greek", "Nd", "Pc", "Zs", "Lt", "Sc", "IsGreekandCoptic", "Space", "IsLatin-1Supplement" }; const int *p = 0; for (size_t a = 0; a < sizeof(uclasses) / sizeof(*uclasses); ++a) if (!strcmp(uclasses[a].name, nm[k])) p = uclasses[a].r; USet t; for (; p && p[0] >= 0; p += 2) t.add(p[0], p[1]); return t; }
  const char *uname(int k) { static const char *const nm[] = { "Greek", "Nd", "Pc", "Zs", "Lt", "Sc", "IsGreekandCoptic", "Space", "IsLatin-1Supplement" }; return nm[k]; }
  void invert(USet &t) { t.inv(top()); if (u) { USet sur; sur.add(0xD800, 0xDFFF); t.minus(sur); } }
  USet list(int depth) { // after '[' is written
    USet t; bool ng = r(4) == 0; o += '['; if (ng) o += '^'; int n = 1 + r(3); bool ops = false; if (depth && r(8) == 0) n = 0;
    for (int k = 0; k < n; ++k) { switch (r(9)) {
        case 0: { static const char *nm[] = { "ascii", "space", "xdigit", "cntrl", "print", "alnum", "alpha", "blank", "digit", "graph", "punct", "word", "lower", "upper" }; const char *c = nm[r(14)]; o += "[:"; o += c; o += ":]"; t |= named(c); break; }
        case 1: if (u) { int k2 = r(3); if (k2 == 0) { bool P = r(3) == 0; int a = r(9); USet q = ucl(a); o += P ? "\\P{" : "\\p{"; o += uname(a); o += '}'; if (P) invert(q); if (P && nnl) { nnlAmb = true; } t |= q; } else if (k2 == 1) { bool D = r(3) == 0 && !nnl; o += D ? "\\D" : "\\d"; USet q = ucl(1); if (D) invert(q); t |= q; } else if (nnl) { o += "\\s"; USet q = ucl(7); USet nl; nl.add('\n'); q.minus(nl); t |= q; } else { o += "\\h"; t |= named("blank"); } break; }
          else { static const char es[] = "dwshlDWSHLN"; char c = es[r(nnl ? 5 : 11)]; o += '\\'; o += c; if (c == 'N') { USet nl; nl.add('\n'); invert(nl); t |= nl; break; } USet q = named(strchr("dD", c) ? "digit" : strchr("wW", c) ? "word" : strchr("sS", c) ? "space" : strchr("hH", c) ? "blank" : "lower"); if (c < 'a') invert(q); if (c == 's' && nnl) { USet nl; nl.add('\n'); q.minus(nl); } t |= q; break; }
        case 2: case 3: case 4: { int a = al[r(4)], b = al[r(4)]; if (a > b) { int z = a; a = b; b = z; } lch(a, k == 0); o += '-'; lch(b, false); t.add(a, b); break; }
        case 5: if (k == 0) { o += ']'; t.add(']'); break; }
        default: { int c = al[r(4)]; lch(c, k == 0); t.add(c); } } }
    if (n && r(10) == 0) { o += '-'; t.add('-'); ops = true; }
    if (i) t.fold();
    if (depth > 0 && !ops) for (int k = n ? r(3) : 1 + r(2); k > 0; --k) { int op = n ? r(3) : (n = 1, 0); o += op == 0 ? "||" : op == 1 ? "&&" : "--"; USet q; if (mac && !u && r(2)) { int m = r(3); o += m == 0 ? "{vowel}" : m == 1 ? "{_d}" : "{up}"; q = macro(m); if (i) q.fold(); } else q = list(depth - 1); if (op == 0) t |= q; else if (op == 1) t &= q; else t.minus(q); }
    o += ']'; if (ng) { invert(t); if (nnl) { USet nl; nl.add('\n'); t.minus(nl); } }
    if (lex && depth == 2) for (int k = r(4) == 0 ? 1 + r(2) : 0; k > 0; --k) { int op = r(4); o += op == 0 ? "{+}" : op == 1 ? "{|}" : op == 2 ? "{&}" : "{-}"; lexops = true; USet q = list(0); if (op < 2) t |= q; else if (op == 2) t &= q; else t.minus(q); }
    if (t.r.empty()) empty = true; return t; }
  bool modm = false, nnlAmb = false, lexops = false;
  USet macro(int m) { USet q; if (m == 0) { for (const char *v = "aeiou"; *v; ++v) q.add(*v); } else if (m == 1) q.add('0', '9'); else q.add('A', 'Z'); return q; }
  int esc() { o += '\\'; USet k; if (u) { switch (r(4)) { case 0: o += "d"; k = ucl(1); break; case 1: { bool P = r(3) == 0 && !nnl; int a = r(9); o += P ? "P{" : "p{"; o += uname(a); o += '}'; k = ucl(a); if (P) invert(k); break; } case 2: if (nnl) { o += 's'; k = ucl(7); USet nl; nl.add('\n'); k.minus(nl); break; } default: o += 'h'; k = named("blank"); } return node(k); }
    static const char es[] = "dwshlDWSHL"; char c = es[r(nnl || i ? 4 : 10)]; o += c; k = named(strchr("dD", c) ? "digit" : strchr("wW", c) ? "word" : strchr("sS", c) ? "space" : strchr("hH", c) ? "blank" : "lower"); if (c < 'a') invert(k); if (c == 's' && nnl) { USet nl; nl.add('\n'); k.minus(nl); } return node(k); }
  int group(int d) { bool si = i, ss = st, sx = x, su = u; o += bre ? "\\(" : "("; if (!bre) switch (r(7)) { case 0: o += "?:"; break; case 1: o += "?i:"; i = true; break; case 2: o += "?-i:"; i = false; break; case 3: o += "?s:"; st = true; break; case 4: o += "?x:"; x = true; break; case 5: o += "?-x:"; x = false; break; default: ; }
    int t = alt(d - 1); o += bre ? "\\)" : ")"; i = si; st = ss; x = sx; u = su; return t; }
  int dot() { o += '.'; if (u) valid = true; USet k; if (!st) k.add('\n'); invert(k); return node(k); }
  int atom(int d, bool &multi) { multi = false; switch (r(d > 0 ? 11 : 8)) { case 0: case 1: case 2: return node(list(2)); case 3: return esc(); case 4: if (!u) return dot(); return chr(); case 5: if (r(2)) { return str(); } if (mac && !i && r(2)) { int m = r(4); o += m == 3 ? "{m1}" : m == 0 ? "{vowel}" : m == 1 ? "{_d}" : "{up}"; if (m < 3) { bool su = u; USet k = macro(m); int y = node(k); (void)su; return y; } USet ka, kb, kc; ka.add('a'); kb.add('b'); kc.add('c'); int y = f->cat(node(ka), node(kb)), z = node(kc); return f->node(N_ALT, y, z); } default: return d > 0 && r(4) == 0 ? group(d) : chr(); case 8: case 9: case 10: return group(d); } }
  int quant(int t) { static const struct { const char *q, *b; int lo, hi; } qs[] = { { "*", "*", 0, -1 }, { "+", "\\+", 1, -1 }, { "?", "\\?", 0, 1 }, { "{2}", "\\{2\\}", 2, 2 }, { "{1,2}", "\\{1,2\\}", 1, 2 }, { "{0,2}", "\\{0,2\\}", 0, 2 }, { "{1,}", "\\{1,\\}", 1, -1 } }; if (r(3)) return t; int k = r(7); o += bre ? qs[k].b : qs[k].q; int y = f->node(N_REP, t); f->nd[y].lo = qs[k].lo; f->nd[y].hi = qs[k].hi; return y; }
  int seq(int d) { int n = 1 + r(3), t = -1; for (int k = 0; k < n; ++k) { bool m; int y = atom(d, m); if (!m) y = quant(y); t = f->cat(t, y); ws(); if (!bre && r(20) == 0) o += "(?#x)"; } return t; }
  int alt(int d) { ws(); int t = seq(d); for (int n = r(3); n > 0; --n) { o += bre ? "\\|" : "|"; ws(); int y = seq(d); t = f->node(N_ALT, t, y); } return t; }
  int rule() { if (u && r(5) == 0) { int t = dot(); switch (r(4)) { case 0: o += bre ? "\\?" : "?"; { int y = f->node(N_REP, t); f->nd[y].lo = 0; f->nd[y].hi = 1; t = y; } break; case 1: o += '*'; { int y = f->node(N_REP, t); f->nd[y].lo = 0; f->nd[y].hi = -1; t = y; } break; default: ; } int c = al[0]; if (r(2)) { if (plain(c)) raw(c); else code(c); t = f->cat(t, one(c)); } return t; } return seq(2); }
};
