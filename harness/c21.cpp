// convert(): the converted regex has the documented meaning of the source regex.
#include "mt.h"
#include "ucd.inc"
#include "conv.h"
#ifndef NT
#define NT 3
#endif
#ifndef FAMILY
#define FAMILY 1000
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef SIG
#define SIG 0
#endif
// signatures of Matcher, StdEcmaMatcher, BoostMatcher and StdPosixMatcher: the less a target supports, the more the converter translates to plain regex syntax, which the RE/flex parser reads too
static const char *const sigs[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "!=:bcdfnrstvwxBDSW?", "imsx!#<=:abcdefghlnrstuvwxzABDHLNQSUWZ0<>", "fnrtv" };
static const char *const sig = sigs[SIG];
// awk-style octal escapes \\ooo of the converted regex are the same as \\xHH
static std::string octal(const std::string &s) { std::string t; for (size_t k = 0; k < s.size(); ++k) if (s[k] == '\\' && k + 3 < s.size() && s[k + 1] >= '0' && s[k + 1] <= '3') { int c = (s[k + 1] - '0') << 6 | (s[k + 2] - '0') << 3 | (s[k + 3] - '0'); static const char h[] = "0123456789abcdef"; t += "\\x"; t += h[c >> 4]; t += h[c & 15]; k += 3; } else { t += s[k]; if (s[k] == '\\' && k + 1 < s.size()) t += s[++k]; } return t; }
static void family(int job) { for (int v = 0;; ++v) { Conv g(job + 1 + v * 100003); Ref f; g.build(f); if (g.o.size() > 80 || g.nnlAmb || (g.modm && (SIG & 1))) continue;
    std::string note = g.o + "  flags"; static const char *const fn[] = { "unicode", "recap", "lex", "u4", "notnewline", "basic", "anycase", "freespace", "dotall", "macros" }; bool on[] = { (g.fl & reflex::convert_flag::unicode) != 0, g.recap, g.lex, g.u4, g.nnl, g.bre, (g.fl & reflex::convert_flag::anycase) != 0, (g.fl & reflex::convert_flag::freespace) != 0, (g.fl & reflex::convert_flag::dotall) != 0, g.mac }; for (int k = 0; k < 10; ++k) if (on[k]) { note += ' '; note += fn[k]; } sym_note(note.c_str());
    std::string cv; bool err = false; reflex::Pattern *p = 0; try { cv = reflex::convert(g.o.c_str(), sig, g.fl, g.mac ? &g.macros : 0); sym_note((note + "  converted " + cv).c_str()); if (SIG == 3) cv = octal(cv); p = new reflex::Pattern(cv, "r"); } catch (reflex::regex_error &e) { err = true; note += "  error "; note += e.what(); sym_note(note.c_str()); }
    if (g.empty) { sym_assert(err, "an empty character class is an error"); return; } sym_assert(!err, "a valid regex is rejected"); if (err) return;
    int n = sym_int(0, g.u ? NT + 1 : NT, "length"); uint8_t t[8]; sym_make(t, n, "text"); if (g.valid) { B ok[9]; ok[n] = 1; for (int i = n - 1; i >= 0; --i) { ok[i] = 0; for (int L = 1; L <= 4 && i + L <= n; ++L) { int c; ok[i] |= utf8at(t + i, L, c) & ok[i + L]; } } sym_assume(ok[0]); }
    Expect x; x.build(f, t, n); reflex::Matcher m(*p, reflex::Input((const char*)t, (size_t)n)); size_t r = m.matches() ? m.accept() : 0; sym_out(r);
    if (r) sym_assert(r <= (size_t)x.R && x.full(r - 1), "the converted regex accepts a text outside the documented language"); else sym_assert(x.fullAny() ^ 1, "the converted regex rejects a text of the documented language"); return; } }
// hand-written pairs: convert(source, flags) and an equivalent regex that only uses the RE/flex pattern syntax
using namespace reflex::convert_flag;
struct Pair { const char *src; reflex::convert_flag_type fl; const char *ref; };
static const Pair pairs[] = {
  { "ab/cd", lex, "ab(?=cd)" }, { "a+/b|c", lex, "a+(?=b)|c" }, { "(a/b)c?", lex, "(?:a(?=b))c?" }, { "a\\/b", lex, "a[/]b" }, { "[/]a", lex, "[/]a" }, { "\"a/b\"c", lex, "a[/]bc" }, { "\"a\\\"b\"", lex, "a[\"]b" }, { "\"a.*\"+", lex, "(?:a[.][*])+" }, { "\\\"a", lex, "[\"]a" }, { "\"a\"", none, "[\"]a[\"]" },
  { "[[:<:]]ab", none, "\\<ab" }, { "ab[[:>:]]", none, "ab\\>" }, { "\\bab", none, "\\bab" }, { "a\\Bb", none, "a\\Bb" }, { "\\<a+\\>", none, "\\<a+\\>" }, { "\\Aab", none, "\\Aab" }, { "ab\\z", none, "ab\\z" }, { "^ab$", multiline, "(?m)^ab$" }, { "(?:^a|b$)", multiline, "(?m)(?:^a|b$)" }, { "(?i)^a", multiline, "(?im)^a" }, { "^a", none, "^a" },
  { "a\\Rb", none, "a(?:\\r\\n|[\\n-\\r]|\\xc2\\x85|\\xe2\\x80[\\xa8\\xa9])b" }, { "\\R+", unicode, "(?:\\r\\n|[\\n-\\r]|\\xc2\\x85|\\xe2\\x80[\\xa8\\xa9])+" }, { "a\\~b", none, "a~b" }, { "\\cAb", none, "\\x01b" }, { "\\e[a]", none, "\\x1b[a]" }, { "\\a\\f", none, "\\x07\\x0c" }, { "\\v\\t", none, "\\x0b\\x09" }, { "\\n\\r", none, "\\x0a\\x0d" }, { "a\\\n  b", none, "ab" }, { "a\\\r\n\tb", none, "ab" },
  { "{lower}{+}{upper}", lex, "[a-zA-Z]" }, { "{lower}{-}{vowel}", lex, "[b-df-hj-np-tv-z]" }, { "{lower}{&}{vowel}+", lex, "[aeiou]+" }, { "{lower}{|}[0-9]", lex, "[a-z0-9]" }, { "{pair}{2}", none, "(?:ab|c){2}" }, { "{pair}+x", none, "(?:ab|c)+x" }, { "x{pair}", lex, "x(?:ab|c)" }, { "[{lower}]", none, "[lower{}]" }, { "[a||{upper}]", none, "[aA-Z]" }, { "[{upper}--[B-Y]]", none, "[{}uper]" }, { "a{1,2}", none, "aa?" },
  { "a\\{2,3\\}", basic, "a{2,3}" }, { "\\(a\\|b\\)*c", basic, "(?:a|b)*c" }, { "a+b", basic, "a[+]b" }, { "a\\+b", basic, "a+b" }, { "a?", basic, "a[?]" }, { "a\\?b", basic, "a?b" }, { "x{2}", basic, "x[{]2[}]" }, { "(a|b)", basic, "[(]a[|]b[)]" }, { "[a*]*", basic, "[a*]*" }, { "a\\.b", basic, "a[.]b" }, { "^a$", basic, "^a$" }, { "\\(ab\\)\\{2\\}", basic, "(?:ab){2}" },
  { "[^a]+", notnewline, "[^a\\n]+" }, { "\\s+", notnewline, "[\\t\\x0b-\\x0d\\x20]+" }, { "[\\s]+", notnewline, "[\\t\\x0b-\\x0d\\x20]+" }, { "[[:space:]]+", notnewline, "[\\t-\\x0d\\x20]+" }, { "[^a]+", none, "[\\x00-`b-\\xff]+" },
  { "\\h+\\l", none, "[\\t\\x20]+[a-z]" }, { "\\u+", none, "[A-Z]+" }, { "\\N+", none, "[^\\n]+" }, { "\\d\\w\\s", none, "[0-9][0-9A-Za-z_][\\t-\\x0d\\x20]" }, { "\\D\\W\\S", none, "[^0-9][^0-9A-Za-z_][^\\t-\\x0d\\x20]" }, { "\\H\\L\\U", none, "[^\\t\\x20][^a-z][^A-Z]" }, { "\\p{Upper}\\P{Digit}", none, "[A-Z][^0-9]" }, { "\\p{XDigit}+", none, "[0-9A-Fa-f]+" }, { "\\pL", none, 0 },
  { ".+", dotall, "[\\x00-\\xff]+" }, { ".a", dotall, "[\\x00-\\xff]a" }, { ".+", none, "[^\\n]+" }, { "(?s).b", none, "[\\x00-\\xff]b" }, { "(?s:.)b.", none, "[\\x00-\\xff]b[^\\n]" }, { "(?-s:.)b.", dotall, "[^\\n]b[\\x00-\\xff]" }, { "a(?#note)b", none, "ab" }, { "(?x) a b # c\n d", none, "abd" }, { "(?x:a b) c", none, "ab[ ]c" }, { "a b # c\nd", freespace, "abd" }, { "(?-x:a b) c", freespace, "a[ ]bc" }, { "[ a]b", freespace, "[ a]b" },
  { "aB", anycase, "[aA][bB]" }, { "[a-c]x", anycase, "[a-cA-C][xX]" }, { "(?-i:a)b", anycase, "a[bB]" }, { "(?i:a)b", none, "[aA]b" }, { "(?i)ab(?-i)c", none, 0 }, { "\\x61", anycase, "[aA]" }, { "\\x{62}", anycase, "[bB]" }, { "a|bc|d", recap, "a|bc|d" }, { "(a|b)c|d", recap, "(?:a|b)c|d" }, { "ab", recap, "ab" },
  { "\xc3\xa9+", none, "\xc3\xa9+" }, { "[\xc3\xa0-\xc3\xbf]", unicode, "\\xc3[\\xa0-\\xbf]" }, { "[\xc3\xa9]+", unicode, "(?:\\xc3\\xa9)+" }, { "\\x{e9}{2}", unicode, "(?:\\xc3\\xa9){2}" }, { "\\u{20ac}?a", unicode, "(?:\\xe2\\x82\\xac)?a" }, { "\\u20ac*a", unicode | u4, "(?:\\xe2\\x82\\xac)*a" }, { "\\ud83d\\ude00", unicode | u4, "\\xf0\\x9f\\x98\\x80" }, { "[\\u{7f}-\\u{80}]", unicode, "(?:\\x7f|\\xc2\\x80)" }, { "\"\xc3\xa9\"+a", unicode | lex, "(?:\\xc3\\xa9)+a" }, { "\\Q\xc3\xa9\\E+a", unicode, "(?:\\xc3\\xa9)+a" }, { "\xc3\xa9+a", unicode, 0 }, { "a??b", none, "a??b" }, { "a+?b", none, "a+?b" }, { "(?=a)a", none, 0 }, { "a(?=b)", none, "a(?=b)" },
};
static const Pair errors[] = { { "(a", none, 0 }, { "a)", none, 0 }, { "[a", none, 0 }, { "[b-a]", none, 0 }, { "a{3,2}", none, 0 }, { "*a", none, 0 }, { "a|*b", none, 0 }, { "a{", none, 0 }, { "a{x}", none, 0 }, { "a}", none, 0 }, { "[[:foo:]]", none, 0 }, { "\\p{Foo}", none, 0 }, { "\\p{Foo}", unicode, 0 }, { "\\u{110000}", unicode, 0 }, { "[\\u{110000}]", unicode, 0 }, { "(?z)a", none, 0 }, { "\\Qabc", none, 0 }, { "\"abc", lex, 0 }, { "a\\", none, 0 }, { "()", none, 0 }, { "a||b", none, 0 }, { "{nope}", none, 0 }, { "[a-\\d]", none, 0 }, { "[a--[a]]", none, 0 }, { "\\(a", basic, 0 }, { "a\\)", basic, 0 }, { "\\u{e9}x\\u{100}", none, 0 }, { "\\ud83dx", unicode | u4, 0 }, { "[\xc3\xa9-a]", unicode, 0 }, { "\\x{}", unicode, 0 }, { "a/b", none, "a[/]b" } };
static const int nerr = sizeof(errors) / sizeof(*errors), npair = sizeof(pairs) / sizeof(*pairs);
static void pair(int job) { const Pair &q = job < npair ? pairs[job] : errors[job - npair]; std::map<std::string,std::string> mac; mac["lower"] = "[a-z]"; mac["upper"] = "[A-Z]"; mac["vowel"] = "[aeiou]"; mac["pair"] = "ab|c"; mac["one-two"] = "z"; std::string note = q.src; sym_note(note.c_str());
  std::string cv; bool err = false; try { cv = reflex::convert(q.src, sigs[0], q.fl, &mac); } catch (reflex::regex_error&) { err = true; } if (job < npair && !q.ref) return; if (!q.ref) { sym_assert(err, "an invalid regex is accepted"); sym_out(err); return; } sym_assert(!err, "a valid regex is rejected"); if (err) return; note += "  converted "; note += cv; sym_note(note.c_str());
  reflex::Pattern *p = 0, *r = 0; try { p = new reflex::Pattern(cv, "r"); r = new reflex::Pattern(q.ref, "r"); } catch (reflex::regex_error &e) { sym_assert(0, "a valid regex is rejected"); return; }
  int n = sym_int(0, NT, "length"); uint8_t t[8]; sym_make(t, n, "text"); reflex::Matcher a(*p, reflex::Input((const char*)t, (size_t)n)), b(*r, reflex::Input((const char*)t, (size_t)n));
  for (int k = 0; k <= n; ++k) { bool x = a.find() != 0, y = b.find() != 0; sym_out(x); sym_assert(x == y, "the converted regex finds a match where the documented meaning has none, or none where it has one"); if (!x || !y) break; sym_out(a.accept()); sym_out(a.first()); sym_out(a.size()); sym_assert(a.first() == b.first() && a.size() == b.size() && a.accept() == b.accept(), "the converted regex finds a different match than the documented meaning"); } }
#if MODE == 1
extern "C" int harness_jobs() { return npair + nerr; }
extern "C" void harness(int job) { pair(job); }
#else
extern "C" int harness_jobs() { return FAMILY; }
extern "C" void harness(int job) { family(job); }
#endif
