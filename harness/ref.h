// Independent reference semantics for regexes: the set of (begin, end) spans of every rule as terms over a text of symbolic bytes.
// The parser and the span computation follow the documentation only; nothing is taken from the implementation.
#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <string.h>
#include <algorithm>
#include <stdlib.h>
typedef uint8_t B; // 0 or 1
struct CSet { uint64_t b[4]; CSet() { b[0] = b[1] = b[2] = b[3] = 0; } void add(int c) { b[(c >> 6) & 3] |= 1ULL << (c & 63); } void add(int lo, int hi) { for (int c = lo; c <= hi; ++c) add(c); } bool has(int c) const { return b[c >> 6] >> (c & 63) & 1; }
  void inv() { for (int i = 0; i < 4; ++i) b[i] = ~b[i]; } void operator|=(const CSet &o) { for (int i = 0; i < 4; ++i) b[i] |= o.b[i]; } void operator&=(const CSet &o) { for (int i = 0; i < 4; ++i) b[i] &= o.b[i]; } void minus(const CSet &o) { for (int i = 0; i < 4; ++i) b[i] &= ~o.b[i]; }
  void fold() { for (int c = 'a'; c <= 'z'; ++c) if (has(c) || has(c - 32)) { add(c); add(c - 32); } } };
enum NK { N_EPS, N_SET, N_CAT, N_ALT, N_REP, N_BOL, N_EOL, N_BOB, N_EOB, N_WB, N_NWB, N_BWB, N_EWB, N_LOOK, N_NONE, N_USET };
// a set of code points
struct USet { std::vector<std::pair<int,int> > r; void add(int lo, int hi) { r.push_back(std::make_pair(lo, hi)); norm(); } void add(int c) { add(c, c); }
  void norm() { std::sort(r.begin(), r.end()); std::vector<std::pair<int,int> > o; for (size_t i = 0; i < r.size(); ++i) if (!o.empty() && r[i].first <= o.back().second + 1) { if (r[i].second > o.back().second) o.back().second = r[i].second; } else o.push_back(r[i]); r.swap(o); }
  void operator|=(const USet &o) { r.insert(r.end(), o.r.begin(), o.r.end()); norm(); } void inv(int top) { std::vector<std::pair<int,int> > o; int k = 0; for (size_t i = 0; i < r.size(); ++i) { if (r[i].first > k) o.push_back(std::make_pair(k, r[i].first - 1)); k = r[i].second + 1; } if (k <= top) o.push_back(std::make_pair(k, top)); r.swap(o); }
  void minus(const USet &o) { inv(0x10FFFF); *this |= o; inv(0x10FFFF); } void operator&=(const USet &o) { USet k = o; k.inv(0x10FFFF); minus(k); } bool has(int c) const { for (size_t i = 0; i < r.size(); ++i) if (c >= r[i].first && c <= r[i].second) return true; return false; }
  void fold() { USet k; for (int c = 'a'; c <= 'z'; ++c) if (has(c) || has(c - 32)) { k.add(c); k.add(c - 32); } *this |= k; } B in(int c) const { B k = 0; for (size_t i = 0; i < r.size(); ++i) k |= B(c >= r[i].first) & B(c <= r[i].second); return k; } };
// the L bytes at b are the valid UTF-8 encoding of the character returned in c
static inline B utf8at(const uint8_t *b, int L, int &c) {
  if (L == 1) { c = b[0]; return b[0] < 0x80; } if (L == 2) { c = (b[0] & 31) << 6 | (b[1] & 63); return B(b[0] >= 0xC2) & B(b[0] <= 0xDF) & B((b[1] & 0xC0) == 0x80); }
  if (L == 3) { c = (b[0] & 15) << 12 | (b[1] & 63) << 6 | (b[2] & 63); return B((b[0] & 0xF0) == 0xE0) & B((b[1] & 0xC0) == 0x80) & B((b[2] & 0xC0) == 0x80) & B(c >= 0x800) & (B(c < 0xD800) | B(c > 0xDFFF)); }
  c = (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | (b[3] & 63); return B((b[0] & 0xF8) == 0xF0) & B((b[1] & 0xC0) == 0x80) & B((b[2] & 0xC0) == 0x80) & B((b[3] & 0xC0) == 0x80) & B(c >= 0x10000) & B(c <= 0x10FFFF); }
struct RNode { NK k; CSet s; int a, b, lo, hi; bool lazy; };
// value of a predicate on one byte, as a term
static inline B inset(const uint8_t *tab, uint8_t c) { return tab[c] != 0; }
struct Spans { int n; std::vector<B> m; Spans() : n(0) { } void init(int len) { n = len; m.assign((n + 1) * (n + 1), 0); } B &at(int i, int j) { return m[i * (n + 1) + j]; } B at(int i, int j) const { return m[i * (n + 1) + j]; } };
struct RefText { const uint8_t *t; int n; bool bol0; RefText(const void *p, int len) : t((const uint8_t*)p), n(len), bol0(true) { } };
struct Ref {
  std::vector<USet> usets; int usetNode(const USet &u) { int x = node(N_USET); nd[x].a = usets.size(); usets.push_back(u); return x; }
  std::vector<RNode> nd; std::vector<int> rules; std::vector<bool> neg; std::vector<bool> lazyRule; std::vector<std::vector<uint8_t> > tabs; std::vector<int> tabOf;
  bool oi, om, os, ox, oq, ou, ob = false, crlf = false; int esc; const char *p; bool bad;
  Ref() : oi(false), om(false), os(false), ox(false), oq(false), ou(false), esc('\\'), p(0), bad(false) { }
  explicit Ref(const char *re, const char *opt = "") : oi(false), om(false), os(false), ox(false), oq(false), ou(false), esc('\\'), p(0), bad(false) { for (const char *o = opt; *o; ++o) { if (*o == 'i') oi = true; else if (*o == 'm') om = true; else if (*o == 's') os = true; else if (*o == 'x') ox = true; else if (*o == 'q') oq = true; else if (*o == 'b') ob = true; else if (*o == 'e') { esc = o[1] == '=' ? o[2] : o[1]; if (esc == ';') esc = 256; while (*o && *o != ';') ++o; if (!*o) break; } } parse(re); }
  int node(NK k, int a = -1, int b = -1) { RNode n; n.k = k; n.a = a; n.b = b; n.lo = n.hi = 0; n.lazy = false; nd.push_back(n); return nd.size() - 1; }
  int setNode(CSet s) { int x = node(N_SET); nd[x].s = s; return x; }
  int lit(int c) { CSet s; s.add(c & 255); if (oi) s.fold(); return setNode(s); }
  int cat(int a, int b) { if (a < 0) return b; if (b < 0) return a; return node(N_CAT, a, b); }
  void parse(const char *re) { p = re; globalMods();
    for (;;) { bool n = false; lazySeen = false; int x; if (p[0] == '(' && p[1] == '?' && p[2] == '^') { n = true; p += 3; x = alts(); if (*p == ')') ++p; else bad = true; } else x = seq();
      rules.push_back(x); neg.push_back(n); lazyRule.push_back(lazySeen); if (*p == '|') { ++p; continue; } break; }
    if (*p) bad = true; }
  bool lazySeen;
  void globalMods() { while (p[0] == '(' && p[1] == '?') { const char *q = p + 2; bool on = true; while (strchr("imsuxq-", *q) && *q) ++q; if (*q != ')') return; for (q = p + 2; *q != ')'; ++q) { if (*q == '-') on = false; else mod(*q, on); } p = q + 1; } }
  void mod(char c, bool on) { if (c == 'i') oi = on; else if (c == 'm') om = on; else if (c == 's') os = on; else if (c == 'x') ox = on; else if (c == 'q') oq = on; else if (c == 'u') ou = on; }
  void skip() { if (ox) for (;;) { if (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || *p == '\v' || *p == '\f') ++p; else if (*p == '#') { while (*p && *p != '\n') ++p; } else break; } }
  int alts() { int x = seq(); while (*p == '|') { ++p; int y = seq(); x = node(N_ALT, x, y); } return x; }
  int seq() { int x = -1; for (;;) { skip(); if (!*p || *p == '|' || *p == ')') break; int y = quant(); if (y < -1) break; x = cat(x, y); } return x < 0 ? node(N_EPS) : x; }
  int quant() { int x = atom(); for (;;) { skip(); int lo, hi; if (*p == '*') { lo = 0; hi = -1; ++p; } else if (*p == '+') { lo = 1; hi = -1; ++p; } else if (*p == '?') { lo = 0; hi = 1; ++p; }
      else if (*p == '{' && p[1] >= '0' && p[1] <= '9') { ++p; lo = strtol(p, (char**)&p, 10); hi = lo; if (*p == ',') { ++p; if (*p == '}') hi = -1; else hi = strtol(p, (char**)&p, 10); } if (*p == '}') ++p; else bad = true; } else break;
      int y = node(N_REP, x); nd[y].lo = lo; nd[y].hi = hi; if (*p == '?') { ++p; nd[y].lazy = true; lazySeen = true; } x = y; } return x; }
  static CSet named(const char *s, int n) { CSet r; std::string k(s, n); for (size_t i = 0; i < k.size(); ++i) if (k[i] >= 'A' && k[i] <= 'Z') k[i] += 32;
    if (k == "ascii") r.add(0, 127); else if (k == "space") { r.add(9, 13); r.add(' '); } else if (k == "xdigit") { r.add('0', '9'); r.add('A', 'F'); r.add('a', 'f'); } else if (k == "cntrl") { r.add(0, 31); r.add(127); } else if (k == "print") r.add(32, 126); else if (k == "alnum") { r.add('0', '9'); r.add('A', 'Z'); r.add('a', 'z'); } else if (k == "alpha") { r.add('A', 'Z'); r.add('a', 'z'); } else if (k == "blank") { r.add(' '); r.add(9); } else if (k == "digit") r.add('0', '9'); else if (k == "graph") r.add(33, 126); else if (k == "lower") r.add('a', 'z'); else if (k == "punct") { r.add(0x21, 0x2f); r.add(0x3a, 0x40); r.add(0x5b, 0x60); r.add(0x7b, 0x7e); } else if (k == "upper") r.add('A', 'Z'); else if (k == "word") { r.add('0', '9'); r.add('A', 'Z'); r.add('a', 'z'); r.add('_'); } return r; }
  // escape at p (after the escape character); returns true with a set
  bool escSet(CSet &s, bool inList) { char c = *p; switch (c) {
      case 'd': s = named("digit", 5); break; case 'D': s = named("digit", 5); s.inv(); break; case 'w': s = named("word", 4); break; case 'W': s = named("word", 4); s.inv(); break;
      case 's': s = named("space", 5); break; case 'S': s = named("space", 5); s.inv(); break; case 'h': s = named("blank", 5); break; case 'H': s = named("blank", 5); s.inv(); break;
      case 'l': s = named("lower", 5); break; case 'L': s = named("lower", 5); s.inv(); break; case 'u': if (p[1] == '{') return false; s = named("upper", 5); break; case 'U': s = named("upper", 5); s.inv(); break;
      case 'X': if (inList) return false; s.inv(); break; case 'N': s.add('\n'); s.inv(); break;
      case 'p': case 'P': if (p[1] == '{') { const char *e = strchr(p, '}'); if (!e) { bad = true; return false; } bool ng = c == 'P'; const char *b = p + 2; if (*b == '^') { ng = !ng; ++b; } s = named(b, e - b); if (ng) s.inv(); p = e + 1; return true; } return false;
      default: return false; } ++p; return true; }
  int escChar() { int c = (unsigned char)*p++; switch (c) { case 'a': return 7; case 'b': return 8; case 't': return 9; case 'n': return 10; case 'v': return 11; case 'f': return 12; case 'r': return 13; case 'e': return 27;
      case '0': { if (*p >= '0' && *p <= '7') { int v = 0; for (int k = 0; k < 3 && *p >= '0' && *p <= '7'; ++k) v = v * 8 + *p++ - '0'; return v & 255; } return 0; }
      case 'x': case 'u': { if (*p == '{') { int v = strtol(p + 1, (char**)&p, 16); if (*p == '}') ++p; return v & 255; } int v = 0, k = 0; for (; k < 2; ++k) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'f') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'F') d = *p - 'A' + 10; else break; v = v * 16 + d; ++p; } if (!k) return c; return v; }
      case 'o': if (*p == '{') { int v = strtol(p + 1, (char**)&p, 8); if (*p == '}') ++p; return v & 255; } return c;
      case 'c': return *p ? (*p++ & 31) : c; default: return c; } }
  CSet list() { CSet s; bool ng = false; if (*p == '^') { ng = true; ++p; } bool first = true; 
    while (*p && (*p != ']' || first)) { first = false;
      if (p[0] == '[' && p[1] == ':') { const char *b = p + 2; bool n2 = false; if (*b == '^') { n2 = true; ++b; } const char *e = strstr(b, ":]"); if (e) { CSet q = named(b, e - b); if (n2) q.inv(); s |= q; p = e + 2; continue; } }
      if ((p[0] == '|' && p[1] == '|' && p[2] == '[') || (p[0] == '&' && p[1] == '&' && p[2] == '[') || (p[0] == '-' && p[1] == '-' && p[2] == '[')) { char o = *p; p += 3; CSet q = list(); if (o == '|') s |= q; else if (o == '&') s &= q; else s.minus(q); continue; }
      int lo; if (*p == esc && !ob) { ++p; CSet q; if (escSet(q, true)) { s |= q; continue; } lo = escChar(); } else lo = (unsigned char)*p++;
      int hi = lo; if (p[0] == '-' && p[1] != ']' && p[1] && !(p[1] == '-' && p[2] == '[')) { ++p; if (*p == esc && !ob) { ++p; hi = escChar(); } else hi = (unsigned char)*p++; }
      s.add(lo, hi); }
    if (*p == ']') ++p; else bad = true; if (oi) s.fold(); if (ng) s.inv(); return s; }
  int atom() { char c = *p;
    if (c == '(') { if (p[1] == '?') { if (p[2] == ':') { p += 3; bool si = oi, sm = om, ss = os, sx = ox, sq = oq; int x = alts(); oi = si; om = sm; os = ss; ox = sx; oq = sq; close(); return x; } if (p[2] == '=') { p += 3; int x = alts(); close(); return node(N_LOOK, x); }
        if (p[2] == '#') { while (*p && *p != ')') ++p; if (*p) ++p; return node(N_EPS); }
        bool si = oi, sm = om, ss = os, sx = ox, sq = oq, su = ou, on = true; p += 2; for (; *p && *p != ':' && *p != ')'; ++p) { if (*p == '-') on = false; else mod(*p, on); } if (*p == ')') { ++p; return node(N_EPS); } ++p; int x = alts(); close(); oi = si; om = sm; os = ss; ox = sx; oq = sq; ou = su; return x; }
      ++p; bool si = oi, sm = om, ss = os, sx = ox, sq = oq; int x = alts(); oi = si; om = sm; os = ss; ox = sx; oq = sq; close(); return x; }
    if (c == '[') { ++p; return setNode(list()); }
    if (c == '.') { ++p; CSet s; if (!os) s.add('\n'); s.inv(); return setNode(s); }
    if (c == '^') { ++p; return node(om ? N_BOL : N_BOB); }
    if (c == '$') { ++p; return node(om ? N_EOL : N_EOB); }
    if (c == '"' && oq) { ++p; int x = -1; while (*p && *p != '"') { if (*p == esc && p[1] == '"') ++p; x = cat(x, lit(*p++)); } if (*p) ++p; else bad = true; return x < 0 ? node(N_EPS) : x; }
    if (c == '/' && false) return -1;
    if (c == esc) { ++p; switch (*p) { case 'A': ++p; return node(N_BOB); case 'z': ++p; return node(N_EOB); case 'b': ++p; return node(N_WB); case 'B': ++p; return node(N_NWB); case '<': ++p; return node(N_BWB); case '>': ++p; return node(N_EWB);
        case 'Q': { ++p; int x = -1; while (*p && !(p[0] == esc && p[1] == 'E')) x = cat(x, lit(*p++)); if (*p) p += 2; else bad = true; return x < 0 ? node(N_EPS) : x; } }
      CSet s; if (escSet(s, false)) { if (oi) s.fold(); return setNode(s); } int ch = escChar(); return lit(ch); }
    ++p; return lit(c); }
  void close() { if (*p == ')') ++p; else bad = true; }
  // ---- spans over a text
  std::vector<Spans> sp; const uint8_t *T; int N; uint8_t wtab[256], nltab[256];
  B w(int i) { return i < 0 || i >= N ? 0 : inset(wtab, T[i]); }
  B wrd(int i) { return w(i); }
  B nl(int i) { return inset(nltab, T[i]); }
  B posOk(NK k, int i) { switch (k) { case N_BOB: return i == 0; case N_EOB: return i == N; case N_BOL: return i == 0 ? 1 : nl(i - 1); case N_EOL: return i == N ? 1 : crlf && i + 1 < N ? nl(i) | (B(T[i] == 13) & nl(i + 1)) : nl(i);
      case N_WB: return w(i - 1) ^ w(i); case N_NWB: return (w(i - 1) ^ w(i)) ^ 1; case N_BWB: return (w(i - 1) ^ 1) & w(i); case N_EWB: return w(i - 1) & (w(i) ^ 1); default: return 0; } }
  void prepare(const RefText &x) { T = x.t; N = x.n; for (int c = 0; c < 256; ++c) { wtab[c] = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_'; nltab[c] = c == '\n'; } sp.clear(); sp.resize(nd.size()); }
  Spans &ev(int x) { Spans &S = sp[x]; if (S.n || S.m.size()) return S; S.init(N); RNode &d = nd[x];
    switch (d.k) {
      case N_EPS: for (int i = 0; i <= N; ++i) S.at(i, i) = 1; break;
      case N_SET: { uint8_t tab[256]; for (int c = 0; c < 256; ++c) tab[c] = d.s.has(c); for (int i = 0; i < N; ++i) S.at(i, i + 1) = inset(tab, T[i]); break; }
      case N_USET: { const USet &u = usets[d.a]; for (int i = 0; i < N; ++i) for (int L = 1; L <= 4 && i + L <= N; ++L) { int c; B ok = utf8at(T + i, L, c); S.at(i, i + L) = ok & u.in(c); } break; }
      case N_CAT: { Spans &A = ev(d.a), &C = ev(d.b); catInto(S, A, C); break; }
      case N_ALT: { Spans &A = ev(d.a), &C = ev(d.b); for (int i = 0; i <= N; ++i) for (int j = i; j <= N; ++j) S.at(i, j) = A.at(i, j) | C.at(i, j); break; }
      case N_REP: { Spans &A = ev(d.a); Spans cur; cur.init(N); for (int i = 0; i <= N; ++i) cur.at(i, i) = 1; for (int k = 0; k < d.lo; ++k) { Spans t; t.init(N); catInto(t, cur, A); cur = t; }
        if (d.hi < 0) { Spans st; st.init(N); for (int i = N; i >= 0; --i) for (int j = i; j <= N; ++j) { B v = i == j; for (int k = i + 1; k <= j; ++k) v |= A.at(i, k) & st.at(k, j); st.at(i, j) = v; } catInto(S, cur, st); }
        else { Spans acc = cur; for (int k = d.lo; k < d.hi; ++k) { Spans t; t.init(N); catInto(t, cur, A); cur = t; for (size_t q = 0; q < acc.m.size(); ++q) acc.m[q] |= cur.m[q]; } S = acc; } break; }
      case N_LOOK: { Spans &A = ev(d.a); for (int i = 0; i <= N; ++i) { B v = 0; for (int j = i; j <= N; ++j) v |= A.at(i, j); S.at(i, i) = v; } break; }
      default: for (int i = 0; i <= N; ++i) S.at(i, i) = posOk(d.k, i); }
    return S; }
  void catInto(Spans &S, const Spans &A, const Spans &C) { for (int i = 0; i <= N; ++i) for (int j = i; j <= N; ++j) { B v = 0; for (int k = i; k <= j; ++k) { B a = A.at(i, k); v |= a & C.at(k, j); } S.at(i, j) = v; } }
  Spans &rule(int r) { return ev(rules[r]); }
  int nrules() const { return rules.size(); }
};
// Expected results of searching: computed once, before the code under test runs. As in Lex, trailing context counts for the length of a match when rules compete, but is not part of the match.
struct Expect { int n, R; std::vector<B> any, longest, fullr; std::vector<B> first; // first[(r*(n+1)+i)*(n+1)+j]: rule r is reported for span (i,j), trailing context included
  std::vector<bool> isl; std::vector<Spans> head, tail; Expect() : n(0), R(0) { }
  void build(Ref &f, const void *text, int len_) { f.prepare(RefText(text, len_)); n = len_; R = f.nrules(); any.assign((n + 1) * (n + 1), 0); longest = any; first.assign(R * (n + 1) * (n + 1), 0); isl.assign(R, false); head.resize(R); tail.resize(R); fullr.assign(R, 0);
    for (int r = 0; r < R; ++r) { Spans &S = f.rule(r); bool lz = f.lazyRule[r]; RNode &d = f.nd[f.rules[r]]; fullr[r] = S.at(0, n);
      if (d.k == N_CAT && f.nd[d.b].k == N_LOOK) { isl[r] = true; head[r] = f.ev(d.a); tail[r] = f.ev(f.nd[d.b].a); for (int i = 0; i <= n; ++i) head[r].at(i, i) = 0; }
      Spans X; if (isl[r]) { X.init(n); f.catInto(X, head[r], tail[r]); } const Spans &Z = isl[r] ? X : S;
      for (int i = 0; i <= n; ++i) { B shorter = 0; for (int j = i; j <= n; ++j) { B m = Z.at(i, j); if (lz) { m &= shorter ^ 1; if (j > i) shorter |= Z.at(i, j); } first[(r * (n + 1) + i) * (n + 1) + j] = m; } } if (lz) fullr[r] = first[(r * (n + 1)) * (n + 1) + n]; }
    B fs = 0; for (int r = 0; r < R; ++r) { B m = fullr[r]; fullr[r] = m & (fs ^ 1); fs |= m; } fany = fs; lookFull = 0; for (int r = 0; r < R; ++r) if (isl[r]) for (int k = 0; k <= n; ++k) lookFull |= head[r].at(0, k) & tail[r].at(k, n);
    for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) { B seen = 0; for (int r = 0; r < R; ++r) { B m = first[(r * (n + 1) + i) * (n + 1) + j]; first[(r * (n + 1) + i) * (n + 1) + j] = m & (seen ^ 1); seen |= m; } any[i * (n + 1) + j] = seen; }
    for (int i = 0; i <= n; ++i) { B later = 0; for (int j = n; j >= i; --j) { longest[i * (n + 1) + j] = any[i * (n + 1) + j] & (later ^ 1); later |= any[i * (n + 1) + j]; } } }
  B fany, lookFull; B full(int r) { return fullr[r]; }                     // whole text, rule r reported
  B fullAny() { return fany; }
  B at(int r, int i, int j) { return longest[i * (n + 1) + j] & first[(r * (n + 1) + i) * (n + 1) + j]; }
  B bestRule(int r, int i, int j) { if (!isl[r]) return at(r, i, j); B v = 0; for (int k = j; k <= n; ++k) v |= at(r, i, k) & head[r].at(i, j) & tail[r].at(j, k); return v; } // the match (i,j) of rule r is reported at i
  B best(int i, int j) { B v = 0; for (int r = 0; r < R; ++r) v |= bestRule(r, i, j); return v; }                         // the match at i ends at j
  B none(int i) { B v = 0; for (int j = i + 1; j <= n; ++j) v |= any[i * (n + 1) + j]; return v ^ 1; } // no non-empty match starts at i
  B noneFrom(int i, int k) { B v = 1; for (; i < k; ++i) v &= none(i); return v; }
};
