// Named character classes: every documented name selects exactly the characters the Unicode data files assign to it.
#include "mt.h"
#include <reflex/convert.h>
#include <reflex/posix.h>
#include <reflex/unicode.h>
#include "ucd.inc"
#ifndef MODE
#define MODE 0
#endif
#ifndef MAXR
#define MAXR 40
#endif
static const int NU = sizeof(uclasses) / sizeof(*uclasses);
static const int rAlnum[] = { '0','9','A','Z','a','z',-1 }, rAlpha[] = { 'A','Z','a','z',-1 }, rBlank[] = { 9,9,32,32,-1 }, rCntrl[] = { 0,31,127,127,-1 }, rDigit[] = { '0','9',-1 }, rGraph[] = { 33,126,-1 }, rLower[] = { 'a','z',-1 }, rPrint[] = { 32,126,-1 }, rPunct[] = { 33,47,58,64,91,96,123,126,-1 }, rSpace[] = { 9,13,32,32,-1 }, rUpper[] = { 'A','Z',-1 }, rWord[] = { '0','9','A','Z','_','_','a','z',-1 }, rXDigit[] = { '0','9','A','F','a','f',-1 }, rASCII[] = { 0,127,-1 };
// classes of the C locale; those after the first SHARED entries have another meaning as Unicode classes
static const UClass pclasses[] = { {"Alnum",rAlnum,3}, {"Alpha",rAlpha,2}, {"ASCII",rASCII,1}, {"Blank",rBlank,2}, {"Cntrl",rCntrl,2}, {"Digit",rDigit,1}, {"Graph",rGraph,1}, {"Lower",rLower,1}, {"Print",rPrint,1}, {"Punct",rPunct,4}, {"Upper",rUpper,1}, {"XDigit",rXDigit,3}, {"h",rBlank,2}, {"x",rXDigit,3}, {"Space",rSpace,2}, {"Word",rWord,4}, {"s",rSpace,2}, {"w",rWord,4}, {"d",rDigit,1}, {"l",rLower,1}, {"u",rUpper,1} };
static const int NP = sizeof(pclasses) / sizeof(*pclasses), SHARED = 14;
static B in(const int *r, int c) { B k = 0; for (; r[0] >= 0; r += 2) k |= B(c >= r[0]) & B(c <= r[1]); return k; }
static B intab(const int *r, int c) { B k = 0; for (; r[1] != 0; r += 2) k |= B(c >= r[0]) & B(c <= r[1]); return k; }
static bool known(const char *n, bool uni) { if (uni) for (int i = 0; i < NU; ++i) if (!strcmp(uclasses[i].name, n)) return true; for (int i = 0; i < (uni ? SHARED : NP); ++i) if (!strcmp(pclasses[i].name, n)) return true; return false; }
static const char *const sig = "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?";
static const char *const forms[] = { "\\p{%}", "\\P{%}", "\\p{^%}", "[\\p{%}]", "[^\\p{%}]", "[\\P{%}]", "[\\p{^%}]", "[\\x01\\p{%}]" }; enum { NFORM = 8 };
static std::string form(int k, const char *n) { std::string s; for (const char *f = forms[k]; *f; ++f) if (*f == '%') s += n; else s += *f; return s; }
static void e2e(const UClass &u, int k, bool uni, int part) { std::string re = form(k, u.name); sym_note(re.c_str()); bool inv = k == 1 || k == 2 || (k >= 4 && k < 7);
  std::string cv = reflex::convert(re, sig, uni ? reflex::convert_flag::unicode : reflex::convert_flag::none); reflex::Pattern p(cv, "r");
  int L = uni ? sym_int(1, 4, "length") : 1; uint8_t t[4]; sym_make(t, L, "text"); const uint8_t *b = t; int c; B ok;
  if (!uni) { ok = 1; c = b[0]; }
  else if (L == 1) { ok = b[0] < 0x80; c = b[0]; } else if (L == 2) { ok = B(b[0] >= 0xC2) & B(b[0] <= 0xDF) & B((b[1] & 0xC0) == 0x80); c = (b[0] & 31) << 6 | (b[1] & 63); }
  else if (L == 3) { c = (b[0] & 15) << 12 | (b[1] & 63) << 6 | (b[2] & 63); ok = B((b[0] & 0xF0) == 0xE0) & B((b[1] & 0xC0) == 0x80) & B((b[2] & 0xC0) == 0x80) & B(c >= 0x800) & (B(c < 0xD800) | B(c > 0xDFFF)); }
  else { c = (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | (b[3] & 63); ok = B((b[0] & 0xF8) == 0xF0) & B((b[1] & 0xC0) == 0x80) & B((b[2] & 0xC0) == 0x80) & B((b[3] & 0xC0) == 0x80) & B(c >= 0x10000) & B(c <= 0x10FFFF); }
  B want = in(u.r, c); if (k == 7) want |= B(c == 1); if (inv) want ^= 1; want &= ok; reflex::Matcher m(p, reflex::Input((const char*)t, (size_t)L)); bool g = m.matches() != 0; sym_out(g); sym_assert(B(g) == want, g ? "the class matches a character outside its documented set" : "the class rejects a character of its documented set"); }
static const char *const base[] = { "Alpha", "XDigit", "ASCII", "Space", "Word", "Lu", "Letter", "Greek", "IsGreek", "IsLatin-1Supplement", "L&", "Unicode" };
static void name(int j) { // a name with up to 3 arbitrary bytes, or a known name with one byte replaced, dropped or added
  char n[40]; int len; if (j < 4) { len = j; if (len) sym_make(n, len, "name"); for (int i = 0; i + 1 < len; ++i) { sym_assume(B(n[i] > ' ') & B(n[i] < 0x7F)); n[i] = (char)sym_conc((uint8_t)n[i]); if (len == 3) sym_assume(B(n[i] == '&') | (B(n[i] >= 'A') & B(n[i] <= 'z'))); } } else { const char *b = base[(j - 4) / 2]; len = strlen(b); strcpy(n, b); if (j & 1) { int at = sym_int(0, len - 1, "position"); sym_make(n + at, 1, "byte"); } else { if (sym_int(0, 1, "longer")) sym_make(n + len++, 1, "byte"); else --len; } }
  n[len] = 0; for (int i = 0; i < len; ++i) { sym_assume(B(n[i] > ' ') & B(n[i] != '}') & B(n[i] != '{') & B(n[i] != ':') & B(n[i] != ']') & B(n[i] != '\\')); } if (len) sym_assume(n[0] != '^');
  for (int uni = 0; uni < 2; ++uni) { bool a = (uni ? reflex::Unicode::range(n) : reflex::Posix::range(n)) != NULL; sym_out(a); 
    B want = 0; for (int i = 0; i < (uni ? NU : 0) + (uni ? SHARED : NP); ++i) { const char *w = uni && i < NU ? uclasses[i].name : pclasses[uni ? i - NU : i].name; if ((int)strlen(w) != len) continue; B eq = 1; for (int k = 0; k < len; ++k) eq &= B(n[k] == w[k]); want |= eq; }
    sym_assert(B(a) == want, a ? "a name that is not documented is accepted" : "a documented name is rejected"); } }
// the bracket form [:name:] and its users
static const char *const posixn[] = { "ascii", "space", "xdigit", "cntrl", "print", "alnum", "alpha", "blank", "digit", "graph", "lower", "punct", "upper", "word" };
static const int *posixr(int k) { static const int *const r[] = { rASCII, rSpace, rXDigit, rCntrl, rPrint, rAlnum, rAlpha, rBlank, rDigit, rGraph, rLower, rPunct, rUpper, rWord }; return r[k]; }
static void bracket(int j) { int k = j % 14, v = j / 14; bool ng = v & 1, out = v & 2, conv = v & 4; std::string re = out ? "[^[:" : "[[:"; if (ng) re += '^'; re += posixn[k]; re += ":]]"; sym_note(re.c_str()); if (conv) re = reflex::convert(re, sig); reflex::Pattern p(re, "r"); char t; sym_make(&t, 1, "text"); reflex::Matcher m(p, reflex::Input(&t, (size_t)1)); bool g = m.matches() != 0; sym_out(g); sym_assert(B(g) == B(in(posixr(k), (uint8_t)t) ^ (ng != out)), "the class matches exactly the bytes of the documented set"); }
static void badbracket(int j) { // [:name:] with one byte replaced, dropped or added
  int k = j % 14, v = j / 14; bool conv = v & 1; std::string n = posixn[k]; char x; sym_make(&x, 1, "byte"); sym_assume(B(x > ' ') & B(x != ':') & B(x != ']') & B(x != '\\') & B(x != '^') & B(x < 0x7F)); x = (char)sym_conc((uint8_t)x); int at = sym_int(0, n.size(), "position"), how = sym_int(0, 2, "edit"); if (how == 0) { if (at == (int)n.size()) return; n[at] = x; } else if (how == 1) { n.insert(at, 1, x); } else { if (at == (int)n.size() || x != 'a') return; n.erase(at, 1); }
  bool doc = n.size() == 1; std::string lo = n; for (size_t i = 0; i < lo.size(); ++i) if (lo[i] >= 'A' && lo[i] <= 'Z') lo[i] += 32; for (int i = 0; i < 14; ++i) if (lo == posixn[i]) doc = true; // letter case of a name is not specified
  if (doc) return; std::string re = "[[:" + n + ":]]"; sym_note(re.c_str());
  bool err = false; try { if (conv) re = reflex::convert(re, sig); else reflex::Pattern p(re, "r"); } catch (reflex::regex_error&) { err = true; } sym_out(err); sym_assert(err, "a name that is not documented is accepted"); }
extern "C" int harness_jobs() { return MODE == 0 ? NU + NP : MODE == 1 ? 4 + 2 * (sizeof(base) / sizeof(*base)) : MODE == 2 ? 14 * 8 : MODE == 3 ? 28 : (NU + NP) * NFORM; }
extern "C" void harness(int job) {
  if (MODE == 0) { bool uni = job < NU; const UClass &u = uni ? uclasses[job] : pclasses[job - NU]; sym_note(u.name); int c; sym_make(&c, 4, "c"); sym_assume((c >= 0) & (c <= 0x10FFFF)); for (int p = 0; p < 2; ++p) { if (p == 1 && uni) continue; if (p == 0 && job - NU >= SHARED) continue; const int *r = p ? reflex::Posix::range(u.name) : reflex::Unicode::range(u.name); sym_assert(r != NULL, "a documented name is unknown"); if (!r) continue; for (int i = 0; r[i + 1] != 0; i += 2) { sym_assert(r[i] <= r[i + 1], "the ranges of the table are well formed"); if (i) sym_assert(r[i] > r[i - 1], "the ranges of the table are sorted"); } sym_assert(intab(r, c) == in(u.r, c), "the class holds exactly the documented characters"); } }
  else if (MODE == 1) name(job);
  else if (MODE == 2) bracket(job);
  else if (MODE == 3) badbracket(job);
  else { int k = job % NFORM, i = job / NFORM; bool uni = i < NU; const UClass &u = uni ? uclasses[i] : pclasses[i - NU]; if (u.n > MAXR) return; if (strstr(u.name, "Surrogates") && (k == 0 || k == 3 || k == 7)) return; /* surrogates are not characters */ if (!strcmp(u.name, "Unicode") && (k == 1 || k == 2 || (k >= 4 && k < 7))) return; /* the empty class is an error */ e2e(u, k, uni, 0); if (!uni && i - NU < SHARED) e2e(u, k, true, 0); } }
