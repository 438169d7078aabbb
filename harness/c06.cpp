// Regex syntax: every form denotes the documented set or operator.
#include "mt.h"
#include "synt.h"
#ifndef NT
#define NT 3
#endif
struct Form { const char *re, *opt; };
static const Form forms[] = {
#include "cases_syntax.inc"
};
static const int NF = sizeof(forms) / sizeof(*forms);
static const char *const rejects[] = { "a{1,65537}", "a{65536}", "a{70000,}", "a{3,2}", "a{1", "a{x}", "(a", "a)", "[a", "[", "[]", "[^]", "[^", "[b-a]", "[[:foo:]]", "\\p{Foo}", "\\p{Word", "\\Qab", "(?z)a", "(?i", "\\x{zz}", "\\x{414141}", "a(?i", "(?i:a", "a{1,2", "*a", "+", "?", "(?:)+*x{3,1}", "(|a){2,1}", "[z-\\x61]", "[\\d", "\\u{1", "a|*", "(*a)", "a|b)", "((a)", "\\P{Foo}", "[\\p{Foo}]" };
static const int NR = sizeof(rejects) / sizeof(*rejects);
#ifndef FAMILY
#define FAMILY 0
#endif
#ifndef MODE
#define MODE 0
#endif
// compare the pattern with the reference language on every text of n bytes
static void compare(const std::string &re, const char *opt, Ref &f, int nmax) {
  sym_note(re.c_str()); std::string o = opt; o += "r"; reflex::Pattern p(re, o.c_str()); sym_assert(!f.bad, "reference parser accepts the pattern"); int n = sym_int(0, nmax, "length"); char t[8]; sym_make(t, n, "text"); Expect x; x.build(f, t, n);
  reflex::Matcher m(p, reflex::Input(t, (size_t)n)); size_t r = m.matches() ? m.accept() : 0; sym_out(r);
  if (r) sym_assert(r <= (size_t)x.R && x.full(r - 1), "the pattern accepts a text outside its documented language"); else sym_assert(x.fullAny() ^ 1, "the pattern rejects a text of its documented language"); }
static bool mt1(const std::string &re, const char *opt, char c) { reflex::Pattern p(re, opt); reflex::Matcher m(p, reflex::Input(&c, (size_t)1)); return m.matches() != 0; }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
#define NSYM 14
static void symbolic(int k) { // characters of the pattern are symbolic
  char s[4], t; sym_make(s, 3, "pattern bytes"); sym_make(&t, 1, "text"); uint8_t a = s[0], b = s[1], c = t, z = s[2]; std::string re; bool want = false; const char *opt = "r";
  switch (k) {
    case 0: sym_assume(((a >= '0') & (a <= '9')) | ((a >= 'a') & (a <= 'f')) | ((a >= 'A') & (a <= 'F'))); sym_assume(((b >= '0') & (b <= '9')) | ((b >= 'a') & (b <= 'f')) | ((b >= 'A') & (b <= 'F'))); a = sym_conc(a); b = sym_conc(b); re = "\\x"; re += (char)a; re += (char)b; want = c == hexv(a) * 16 + hexv(b); break;
    case 1: sym_assume((a >= '0') & (a <= '3')); sym_assume((b >= '0') & (b <= '7')); sym_assume((z >= '0') & (z <= '7')); re = "\\0"; re += (char)sym_conc(a); re += (char)sym_conc(b); re += (char)sym_conc(z); want = c == (uint8_t)((a - '0') * 64 + (b - '0') * 8 + (z - '0')); break;
    case 2: sym_assume((a >= '@') & (a <= 'z')); re = "\\c"; re += (char)sym_conc(a); want = c == a % 32; break;
    case 3: sym_assume(a && !strchr(".\\?*+|()[]{}^$", sym_conc(a))); re = (char)sym_conc(a); want = c == a; break;
    case 4: sym_assume(a && !(a >= '0' && a <= '9') && !(a >= 'a' && a <= 'z') && !(a >= 'A' && a <= 'Z') && a != '<' && a != '>'); re = "\\"; re += (char)sym_conc(a); want = c == a; break;
    case 5: sym_assume(a && a != '\\' && a != '^'); a = sym_conc(a); re = "["; re += (char)a; re += "]"; want = c == a; break;
    case 6: sym_assume(a && a != '\\'); a = sym_conc(a); re = "[^"; re += (char)a; re += "]"; want = c != a; break;
    case 7: { static const char bd[] = "!0Aaz~\x80\xc0\xff@Zmn/9"; int i = sym_int(0, sizeof(bd) - 2, "lo"); a = bd[i]; sym_assume(b >= a && b != '\\' && b != ']' && b > 32); b = sym_conc(b); re = "["; re += (char)a; re += '-'; re += (char)b; re += "]"; want = (c >= a) & (c <= b); break; }
    case 8: sym_assume(a && a != '\\'); re = "\\Q"; re += (char)sym_conc(a); re += "\\E"; want = c == a; break;
    case 9: sym_assume(a && a != '"' && a != '\\'); re = "\""; re += (char)sym_conc(a); re += "\""; want = c == a; opt = "qr"; break;
    case 10: sym_assume((a >= 'a' && a <= 'z') || (a >= 'A' && a <= 'Z')); a = sym_conc(a); re = sym_int(0, 1, "form") ? "(?i:[" : "(?i)[x"; re += (char)a; re += "]"; if (re[3] == ':') re += ")"; want = (c | 32) == (a | 32); if (re[3] == ')') want |= (c | 32) == 'x'; break;
    case 11: sym_assume(a && a != 'x' && !strchr(".?*+|()[]{}^$", sym_conc(a))); a = sym_conc(a); re = (char)a; re += "x"; re += (char)a; { char e[8] = { 'e', '=', (char)'#', ';', 'r', 0 }; sym_assume(a != '#'); reflex::Pattern p(re, e); char tt[3] = { t, 'x', s[1] }; reflex::Matcher m(p, reflex::Input(tt, (size_t)3)); bool g = m.matches() != 0; sym_out(g); sym_assert(g == ((c == a) & (b == a)), "with e=# only # is the escape character"); return; }
    case 12: sym_assume(a >= '0' && a <= '7'); re = "\\0"; re += (char)sym_conc(a); re += "x"; { reflex::Pattern p(re, opt); char tt[2] = { t, 'x' }; reflex::Matcher m(p, reflex::Input(tt, (size_t)2)); bool g = m.matches() != 0; sym_out(g); sym_assert(g == (c == a - '0'), "octal escape with one digit"); return; }
    default: sym_assume(a && a != '\\' && a != '^' && a != ']'); a = sym_conc(a); re = "[b"; re += (char)a; re += "\\n\\x7f]"; want = (c == 'b') | (c == a) | (c == '\n') | (c == 0x7f); if (a == '-') want = (c == '\n') | ((c >= 'b') & (c <= '\n')) | (c == 0x7f); if (a == '-') sym_stop(); break; }
  sym_note(re.c_str()); bool g = mt1(re, opt, t); sym_out(g); sym_assert(g == want, "the pattern matches exactly the documented byte"); }
extern "C" int harness_jobs() { return MODE == 0 ? NF + NR : MODE == 1 ? NSYM : FAMILY; }
extern "C" void harness(int job) {
  if (MODE == 0) { if (job >= NF) { const char *re = rejects[job - NF]; sym_note(re); bool err = false; try { reflex::Pattern p(re, "r"); } catch (reflex::regex_error &e) { err = true; sym_assert(e.pos() <= strlen(re), "the error position lies inside the regex"); } sym_out(err); sym_assert(err, "an invalid regex is accepted"); return; }
    const Form &c = forms[job]; Ref f(c.re, c.opt); compare(c.re, c.opt, f, NT); }
  else if (MODE == 1) symbolic(job);
  else { for (int v = 0;; ++v) { Synt g(job + 1 + v * 100003); Ref f; if (MODE == 3) g.strings(f); else g.build(f); if (g.o.size() > 70) continue; compare(g.o, g.opt.c_str(), f, NT); break; } } }
