// Any string given as a regex is compiled or rejected with regex_error: no memory errors, no other exception, no hang.
#include "mt.h"
#include <reflex/convert.h>
#ifndef MODE
#define MODE 0
#endif
struct T { const char *pre; int n; const char *post, *opt; };
#define PAD "(?#0123456789abcdef)"
static const T tm[] = { {"",2,"",""}, {"",2,"","ix"}, {"",2,"","qs"}, {"\\",2,"",""}, {"\\",1,"","x"}, {"a\\",1,"b",""}, {"[",2,"",""}, {"[",2,"]",""}, {"[^",2,"]","i"}, {"[a",2,"]",""}, {"[a-",2,"",""}, {"[\\",2,"",""}, {"[a\\",2,"]","b"}, {"[[",2,"]]",""}, {"[[:",2,"",""}, {"[[:^a",2,":]]",""}, {"[",1,"[:alpha:]]",""}, {"[a||",2,"",""},
  {"(?",2,"",""}, {"(?i",2,"a",""}, {"(?i-",2,":a)",""}, {"a(?",2,")",""}, {"(?^",2,")",""}, {"(?#",2,"",""}, {"(?=",2,")",""}, {"a(?=",2,")",""}, {"a{",2,"",""}, {"a{2",2,"}",""}, {"a{1,",2,"",""}, {"(a{",1,"}){",""}, {"ab{",1,",9}c",""}, {"\\x",2,"",""}, {"\\x{",2,"",""}, {"\\x{1",2,"}",""}, {"\\u",2,"",""}, {"\\0",2,"",""}, {"\\1",2,"",""}, {"\\c",1,"",""}, {"\\p",2,"",""}, {"\\p{",2,"}",""}, {"\\P{Al",2,"",""}, {"\\Q",2,"",""}, {"\\Qa",2,"\\E",""}, {"\\Q\\",2,"E",""}, {"(",2,")",""}, {"(a|",2,")",""}, {"a|",2,"|b",""}, {"(a)",2,"",""}, {"a*",2,"",""}, {"a??",1,"b",""}, {"\"",2,"","q"}, {"\"a",2,"\"","q"}, {"a#",2,"b","x"}, {" ",2,"a ","x"}, {"^",2,"$","m"}, {"a/",2,"","l"}, {"\\b",2,"",""}, {"\\<",2,"\\>",""}, {"\\i",2,"","" }, {"x",2,"","e=x"}, {"[x",2,"]","e=x;"}, {"\xc3",2,"",""}, {"{",2,"}",""}, {"a{1}{",1,"}",""}, {"\\K",2,"",""}, {"(?i:",2,"","" }, {"((",2,"))",""}, {"*",1,"a",""}, {"a|b|",2,"",""}, {".",2,".","s"}, {"a",2,"(?^b)",""}, {"a(?=b",2,"",""} };
static const int NTM = sizeof(tm) / sizeof(*tm);
#ifndef EXTRA
#define EXTRA 0
#endif
static const char *const sigs[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "imsx!#<=:abcdefghlnrstuvwxzABDHLNQSUWZ0<>", "imsx!#<>=:abcdefghijklnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?+[", "!=:bcdfnrstvwxBDSW?", "fnrtv." };
// templates for the converter, with flags given as letters
static const T cv[] = { {"",2,"",""}, {"",2,"","u"}, {"",2,"","lx"}, {"",2,"","b"}, {"",2,"","r"}, {"\\",2,"",""}, {"\\",2,"","u"}, {"\\",2,"","n4"}, {"\\",1,"","b"}, {"[",2,"",""}, {"[",2,"","u"}, {"[",2,"]","u"}, {"[^",2,"]","un"}, {"[a-",2,"",""}, {"[\\",2,"","u"}, {"[a\\",2,"]",""}, {"[[:",2,"",""}, {"[[:",1,":]]",""}, {"[a||",2,"","" }, {"[a&&[",2,"]",""}, {"[a--[",2,"]]","u"}, {"[a||[b",2,"","l"}, {"[a]{",2,"}[b]","l"}, {"[a]{+}",2,"","l"}, {"[a]{-}[",2,"]","l"}, {"{",2,"}","M"}, {"{ab",2,"","M"}, {"[a||{",2,"}]","M"}, {"{ab}{",1,"}[b]","Ml"}, {"{ab}{-}",2,"","Ml"}, {"(?",2,"",""}, {"(?i",2,"a","r"}, {"a(?",2,")","l"}, {"(?i-",2,":a)",""}, {"(?#",2,"",""}, {"(",2,")","l"}, {"(*",2,")",""}, {"a{",2,"",""}, {"a{2",2,"}",""}, {"a{1,",2,"","b"}, {"a\\{1",2,"","b"}, {"\\x",2,"",""}, {"\\x{",2,"}","u"}, {"\\u",2,"41","4"}, {"\\ud8",2,"\\udc00","4u"}, {"\\ud800",2,"udc00","4"}, {"\\o{",2,"}",""}, {"\\0",2,"","u"}, {"\\3",2,"","i"}, {"\\c",1,"",""}, {"\\p",2,"","u"}, {"\\p{",2,"}",""}, {"\\p{",2,"}","u"}, {"\\P{L",1,"}","u"}, {"[\\p{",1,"}]","u"}, {"[^\\p{L",1,"}]","u"}, {"\\Q",2,"",""}, {"\\Qa",2,"\\E",""}, {"\"",2,"","l"}, {"\"a",2,"\"","l"}, {"a/",2,"","l"}, {"a",2,"$","l"}, {"#",2,"a","x"}, {"#",2,"a","lx"}, {" ",2," ","x"}, {".",2,"","us"}, {"\xc3",2,"","u"}, {"\xc3\xa9",2,"","ub"}, {"a\\\n",2,"",""}, {"\\\r",2,"",""}, {"[[:<:]]",2,"",""}, {"[[:>:]]",2,"",""}, {"\\g{",2,"",""}, {"a|",2,"","r"}, {"(a|b)",2,"","rl"}, {"^",2,"","l"}, {"\\N",2,"","u"}, {"\\R",2,"",""}, {"\\X",2,"",""}, {"$",2,"","l"} };
static const int NCV = sizeof(cv) / sizeof(*cv);
// quick: characters that play a role in the syntax and representatives of the others; FULL: every byte
#ifndef FULL
#define FULL 0
#endif
static void bytes(char *b, int n, bool conc = false) { sym_make(b, n, "bytes"); if (FULL) return; 
#if TIER == 1 && !FULL
  static const char a[] = "\\[](){}|?*+.^$-=:#/\"&, \n0159abcdEiLpQsuxzZ\x80\xc3\xf1";
#else
  static const char a[] = "\\[](){}|?*+.^$-=:#/\"'!<>&,_ \n\r\t0159aAbBcdeEfhHikLNopPQRsuUwXxyzZ\x01\x7f\x80\x9f\xa0\xc3\xf0\xf1\xff";
#endif
  for (int i = 0; i < n; ++i) { int ok = 0; for (size_t k = 0; k < sizeof a; ++k) ok |= b[i] == a[k]; sym_assume(ok); if (conc) b[i] = (char)sym_conc((uint8_t)b[i]); } }
extern "C" int harness_jobs() { return MODE == 0 ? NTM * 2 : MODE == 1 ? NCV * 5 : 1; }
extern "C" void harness(int job) {
  if (MODE == 0) { const T &t = tm[job % NTM]; bool thr = job < NTM; char b[4]; int n = t.n + EXTRA - (TIER == 1 && !thr && t.n > 1); bytes(b, n, strchr(t.pre, 0x7b) || t.pre[0] == 0x5b || t.pre[0] == 0x2e); sym_note((std::string(t.pre) + "??" + t.post + " options " + t.opt).c_str()); std::string re = PAD; if (t.opt[0] == 'l') re = "\\Q0123456789abcdef\\E"; re += t.pre; re.append(b, n); re += t.post; std::string opt = t.opt; if (thr) opt += opt.find('=') != std::string::npos ? ";r" : "r";
    try { reflex::Pattern p(re, opt.c_str()); sym_cover("compiled"); static const char tx[] = "a01-b\xc3\xa9\n"; reflex::Matcher m(p, reflex::Input(tx, sizeof(tx) - 1)); size_t k = 0; while (m.find()) if (++k > sizeof(tx)) sym_fail("find() does not progress"); sym_out(1); }
    catch (reflex::regex_error& e) { sym_cover("rejected"); sym_assert(e.pos() <= re.size(), "the error position is inside the regex"); sym_out(2); } }
  else { const T &t = cv[job / 5]; char b[4]; int n = t.n + EXTRA; bytes(b, n, strchr(t.opt, 0x75) || t.pre[0] == 0x5b); sym_note((std::string(t.pre) + "??" + t.post + " flags " + t.opt + " signature " + sigs[job % 5]).c_str()); std::string re = "0123456789abcdef"; re += t.pre; re.append(b, n); re += t.post;
    reflex::convert_flag_type f = 0; std::map<std::string, std::string> mac; mac["ab"] = "[a-c]"; mac["x"] = "a|b"; bool mm = false; for (const char *o = t.opt; *o; ++o) f |= *o == 'b' ? reflex::convert_flag::basic : *o == 'u' ? reflex::convert_flag::unicode : *o == 'r' ? reflex::convert_flag::recap : *o == 'l' ? reflex::convert_flag::lex : *o == '4' ? reflex::convert_flag::u4 : *o == 'i' ? reflex::convert_flag::anycase : *o == 's' ? reflex::convert_flag::dotall : *o == 'x' ? reflex::convert_flag::freespace : *o == 'n' ? reflex::convert_flag::notnewline : 0, mm |= *o == 'M';
    try { std::string r = reflex::convert(re, sigs[job % 5], f, mm ? &mac : NULL); sym_cover("converted"); uint64_t h = 0; for (size_t i = 0; i < r.size(); ++i) h = h * 31 + (uint8_t)r[i]; sym_out(h); sym_assert(strlen(r.c_str()) == r.size(), "the result contains a NUL character"); }
    catch (reflex::regex_error& e) { sym_cover("rejected"); sym_assert(e.pos() <= strlen(re.c_str()), "the error position is inside the regex"); sym_out(2); } } }
