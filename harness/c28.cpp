// regex_error names the error, quotes the place and points at it; Pattern and convert() report the documented code at the offending construct.
#include "sym.h"
#include <reflex/matcher.h>
#include <reflex/convert.h>
#ifndef MODE
#define MODE 0
#endif
// ---- the message ----
static const char *const keys[] = { "( )", "{ }", "[ ]", "quotation", "empty expression", "empty character class", "character class", "range", "escape", "anchor", "repeat", "quantifier", "modifier", "collating", "backreference", "syntax", "length", "limits", "undefined" };
// fillers: one unit is one character
static const char *const fills[] = { "x", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xf0\x90\x8d\x88", "\xe2\x82\xac", 0 };
#ifdef DEEP
static const int targets[] = { 0, 1, 3, 20, 38, 39, 40, 41, 43, 57, 60, 76, 77, 78, 79, 80, 81, 98, 99, 100, 119, 121, 160 };
#else
static const int targets[] = { 0, 3, 20, 38, 40, 43, 59, 76, 78, 79, 99, 121 };
#endif
 static const int NTG = sizeof(targets) / sizeof(*targets);
#ifdef DEEP
static const int tails[] = { 0, 1, 2, 4, 25, 90 };
#else
static const int tails[] = { 0, 2, 25, 90 };
#endif
static const int NTL = sizeof(tails) / sizeof(*tails);
static bool boundary(const std::string &p, size_t i) { return i >= p.size() || ((uint8_t)p[i] & 0xc0) != 0x80; }
static void message(int job) {
  int fi = job % 6; job /= 6; int tg = targets[job % NTG], tl = tails[(job / NTG) % NTL]; bool valid = fi < 5; std::string p; std::string f = valid ? fills[fi] : "x"; int ncw;
  while ((int)(p.size() + f.size()) <= tg) p += f;
  while ((int)p.size() < tg) p += '-';
  size_t ws = p.size(); char s[4]; sym_make(s, 4, "pattern bytes");
  if (valid) { int k = sym_int(0, 3, "character length"); uint8_t a = s[0], b = s[1], c = s[2], d = s[3];
    if (k == 0) sym_assume((a >= 0x20) & (a < 0x7f)); else if (k == 1) sym_assume((a >= 0xc2) & (a < 0xe0) & ((b & 0xc0) == 0x80));
    else if (k == 2) sym_assume(((a & 0xf0) == 0xe0) & ((b & 0xc0) == 0x80) & ((c & 0xc0) == 0x80) & ((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b < 0xa0)));
    else sym_assume((a >= 0xf0) & (a <= 0xf4) & ((b & 0xc0) == 0x80) & ((c & 0xc0) == 0x80) & ((d & 0xc0) == 0x80) & ((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b < 0x90)));
    ncw = k + 1; }
  else { ncw = 3; for (int i = 0; i < 3; ++i) sym_assume((s[i] != 0) & (s[i] != '\n')); }
  p.append(s, ncw); for (int i = 0; i + (int)f.size() <= tl; i += f.size()) p += f;
  size_t len = p.size(), lo = ws > 3 ? ws - 3 : 0; int form = sym_int(0, 3, "position"); size_t pos = form == 0 ? lo + sym_int(0, 12, "near the window") : form == 1 ? len - (len < 2 ? len : (size_t)sym_int(0, 2, "near the end")) : form == 2 ? len + 7 : (size_t)(len * sym_int(0, 3, "anywhere") / 4);
  if (valid && !boundary(p, pos)) sym_stop();
  int code = (tg + tl + form * 5 + fi) % 19; bool own = (tg ^ tl) & 1; std::string why = own ? "my own message" : ""; std::string what; int gotc; size_t gotp;
  // the pattern is a heap block of its own, so that a read past its end is seen
  char *heap = new char[len + 1]; memcpy(heap, p.c_str(), len + 1);
  if (own) { reflex::regex_error e(why.c_str(), heap, pos); what = e.what(); gotc = e.code(); gotp = e.pos(); code = reflex::regex_error::invalid_syntax; }
  else { reflex::regex_error e((reflex::regex_error_type)code, heap, pos); what = e.what(); gotc = e.code(); gotp = e.pos(); }
  if (form == 0 && tl == 2) { reflex::regex_error e((reflex::regex_error_type)code, p, pos), e2(e); std::string w2 = e2.what(); if (!own) sym_assert(w2 == what, "the constructors agree"); sym_assert(e2.code() == code && e2.pos() == pos, "a copy keeps code and position"); }
  delete[] heap;
  sym_out(what.size()); sym_assert(gotc == code && gotp == pos, "code() and pos() are what the error was raised with");
  if (pos > len) pos = len;
  std::string head = "error in regex at position " + std::to_string(pos) + "\n";
  sym_assert(what.compare(0, head.size(), head) == 0, "the message starts with the position");
  size_t nl = what.find('\n', head.size()); sym_assert(nl != std::string::npos && what.size() && what[what.size() - 1] == '\n', "the message has three lines");
  std::string ex = what.substr(head.size(), nl - head.size()), mk = what.substr(nl + 1, what.size() - nl - 2); sym_assert(mk.find('\n') == std::string::npos, "the message has three lines");
  size_t sp = 0; while (sp < mk.size() && mk[sp] == ' ') ++sp; size_t col; bool back = mk.compare(sp, 4, "\\___") == 0; std::string msg;
  if (back) { col = sp; msg = mk.substr(sp + 4); } else { sym_assert(mk.size() >= sp + 4 && mk.compare(mk.size() - 4, 4, "___/") == 0, "the third line is a marker with the message"); col = mk.size() - 1; msg = mk.substr(sp, mk.size() - 4 - sp); }
  if (own) sym_assert(msg == why, "the message is the one given"); else sym_assert(msg.find(keys[code]) != std::string::npos, "the message names the error");
  if (own && !back) sym_assert(sp + why.size() + 4 == mk.size(), "the third line is a marker with the message");
  bool any = false; sym_assert(ex.size() <= len && (len > 79 || pos >= 40 || ex.size() + 3 >= len || ex == p), "the excerpt is a stretch of the regex");
  for (size_t b = 0; b <= pos && b + ex.size() <= len; ++b) { size_t e = b + ex.size(); if (e < pos) continue; bool eq = true; for (size_t i = b; i < e; ++i) if (i < ws || i >= ws + ncw || (uint8_t)ex[i - b] < 0x80) { eq = eq & (ex[i - b] == p[i]); } else eq = eq & (ex[i - b] == p[i]);
    if (valid) { if (!boundary(p, b) || !boundary(p, e)) continue; size_t w = 0; for (size_t i = b; i < pos; ++i) { uint8_t c = p[i]; w += (c & 0xc0) != 0x80; if (c >= 0xf0) { uint32_t cp = ((uint32_t)(c & 7) << 18) | ((p[i + 1] & 0x3f) << 12) | ((p[i + 2] & 0x3f) << 6) | (p[i + 3] & 0x3f); w += cp >= 0x1f18e; } } eq = eq & (back ? col == w : (col == w) | (col + 1 == w)); }
    any = any | eq; }
  sym_assert(any, valid ? "the excerpt quotes whole characters around the position and the marker points at it" : "the excerpt is a stretch of the regex around the position"); }
// ---- code and position ----
enum { PA = 1 << 0, BR = 1 << 1, BK = 1 << 2, QU = 1 << 3, EE = 1 << 4, EC = 1 << 5, IC = 1 << 6, CR = 1 << 7, ES = 1 << 8, AN = 1 << 9, RP = 1 << 10, QF = 1 << 11, MO = 1 << 12, SY = 1 << 15, LI = 1 << 17, UN = 1 << 18, OPEN = 1 << 20, LAST = 1 << 21, QOPT = 1 << 22, LEX = 1 << 23, UNI = 1 << 24 };
struct Bad { const char *re; int pat, conv, fl; }; // codes allowed for Pattern and for convert() (0: accepted there or not examined), OPEN: the error is only known at the end
static const Bad bad[] = {
  {"(",PA,PA,OPEN}, {"((x)",PA,PA,OPEN}, {")",PA | EE,PA | EE,0}, {"(x))",PA,PA,0}, {"()",0,EE,0}, {"(|x)",0,EE,0}, {"x||y",EE,EE,0}, {"(x|)",0,EE,0}, {"(x||y)",0,EE,0},
  {"[",BK,BK,OPEN}, {"[x",BK,BK,OPEN}, {"[^x",BK,BK,OPEN}, {"[0-",BK,BK,OPEN}, {"[[:alpha:]",BK,BK,OPEN}, {"[x\\]",BK,BK,OPEN}, {"[z-a]",CR,CR,0}, {"[\\x7a-a]",CR,CR,0}, {"[qz-ab]",CR,CR,0}, {"[^z-a]",CR,CR,0}, {"[x-\\d]",0,CR,0}, {"[\\d-z]",0,CR,0},
  {"[[:foo:]]",IC,IC,0}, {"[x[:alpah:]]",IC,IC,0}, {"\\p{Foo}",IC,IC,0}, {"\\P{Foo}",IC,IC,0}, {"[\\p{Foo}]",IC,IC,0}, {"[x&&[y]]",0,EC,0}, {"[x--[x]]",0,EC,0},
  {"\\p{Al",ES | BR | IC,BR | IC,OPEN}, {"\\x{110000}",ES | IC,IC | ES,0}, {"\\x{zz}",ES | IC,IC | ES,0}, {"\\x{1",ES | BR,BR | ES,OPEN}, {"\\u{",0,BR | ES,OPEN}, {"\\u{110000}",0,IC | ES,UNI},
  {"\\Qx",QU,QU,OPEN}, {"\\Qx\\",QU,QU,OPEN}, {"\"x",QU,0,OPEN | QOPT}, {"\"x\\\"",QU,0,OPEN | QOPT}, {"\"x",0,QU,OPEN | LEX},
  {"x{2,1}",RP,RP,0}, {"x{9,8}",RP,RP,0}, {"(x){20,19}",RP,RP,0}, {"x{1",RP | BR,RP | BR,OPEN}, {"x{1,",RP | BR,RP | BR,OPEN}, {"x{1,2",RP | BR,RP | BR,OPEN}, {"x{z}",RP,RP,0}, {"x{",RP | BR,RP | BR,OPEN}, {"x{70000}",LI,0,0}, {"x{1,70000}",LI,0,0}, {"x{,3}",0,RP,0}, {"}",0,BR,0},
  {"(?z)",MO,MO,0}, {"(?z:x)",MO,MO,0}, {"(?iz)",MO,MO,0}, {"(?i-z:x)",MO,MO,0}, {"(?i",PA | MO,PA | MO,OPEN}, {"(?",PA | MO,PA | MO,OPEN}, {"(?i:x",PA,PA,OPEN}, {"(?=x",PA,PA,OPEN}, {"(?#x",PA,PA,OPEN}, {"(?<n>x)",MO | SY,MO | SY,0}, {"(?P<n>x)",MO | SY,MO | SY,0}, {"(?<=x)",MO | SY,MO | SY,0}, {"(?!x)",MO | SY,MO | SY,0}, {"(?>x)",MO | SY,MO | SY,0},
  {"\\",ES,ES,LAST}, {"x\\",ES,ES,LAST}, {"\\c",ES,ES,LAST}, {"\\1",0,ES,0}, {"\\C",0,ES,0}, {"\\G",0,ES,0}, {"\\o",0,ES,0}, {"\\q",0,ES,0}, {"\\K",0,ES,0}, {"[\\y]",0,IC,0}, {"(*x)",0,EE,0}, {"(+)",0,EE,0}, {"x|*",EE,EE,0}, {"x|+y",EE,EE,0}, {"{undef}",0,UN,LEX}, {"[x]{+}[y",0,BK,OPEN | LEX}, {"[x]{-}[z-a]",0,CR,LEX} };
static const int NB = sizeof(bad) / sizeof(*bad);
#define SIGALL "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?"
static void codes(int job) {
  int side = job / NB; const Bad &b = bad[job % NB]; int mask = side ? b.conv : b.pat; if (!mask) return; sym_note(b.re); sym_note(side ? "convert" : "Pattern");
  static const char *const pre[] = { "", "(y)", "y|", "y*", "[y]", "yy?", "\\.", "\xc3\xa9" }; std::string re = pre[sym_int(0, 7, "prefix")]; int n = sym_int(0, 2, "literals before"); char s[4]; sym_make(s, 4, "literals");
  for (int i = 0; i < n; ++i) { sym_assume((s[i] >= 'A') & (s[i] <= 'Y')); } re.append(s, n); size_t at = re.size(); re += b.re; size_t end = re.size(); int m = b.fl & LAST ? 0 : sym_int(0, 2, "literals after"); for (int i = 0; i < m; ++i) sym_assume((s[2 + i] >= 'A') & (s[2 + i] <= 'Y')); if (m) { if (b.fl & OPEN) { if (re[re.size() - 1] == '\\') re += 'x'; } re.append(s + 2, m); }
  int code = -1; size_t pos = 0; std::string what;
  try { if (side == 0) { std::string o = "r"; if (b.fl & QOPT) o += "q"; reflex::Pattern p(re, o); } else { reflex::convert_flag_type f = b.fl & LEX ? reflex::convert_flag::lex : b.fl & UNI ? reflex::convert_flag::unicode : reflex::convert_flag::none; std::map<std::string, std::string> macros; macros["def"] = "x"; reflex::convert(re, SIGALL, f, b.fl & LEX ? &macros : NULL); } }
  catch (reflex::regex_error &e) { code = e.code(); pos = e.pos(); what = e.what(); }
  sym_out(code); sym_out(pos);
  sym_assert(code >= 0, "the invalid construct is reported"); sym_assert(((mask >> code) & 1) == 1, "the error has the documented code");
  if (b.fl & OPEN) end = re.size();
  sym_assert(pos >= at && pos <= end, "the error position lies in the offending construct");
  std::string head = "error in regex at position " + std::to_string(pos) + "\n"; sym_assert(what.compare(0, head.size(), head) == 0, "what() gives the same position"); sym_assert(what.find(keys[code]) != std::string::npos, "what() names the error");
  if (side == 0 && n + m == 0) { bool thrown = false; try { std::string o = b.fl & QOPT ? "q" : ""; reflex::Pattern p(re, o); } catch (reflex::regex_error &e) { thrown = true; } sym_assert(thrown == ((mask & LI) != 0), "without option r only exceeded limits are thrown"); } }
extern "C" int harness_jobs() { return MODE == 0 ? 6 * NTG * NTL : 2 * NB; }
extern "C" void harness(int job) { if (MODE == 0) message(job); else codes(job); }
