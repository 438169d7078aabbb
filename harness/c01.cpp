// matches(): decides exactly the language of the pattern; reports the first alternative that matches the whole text.
#include "mt.h"
#include "gen.h"
#ifndef NMAX
#define NMAX 4
#endif
static const char *const pats[] = {
  "a", "", "ab|abc", "(a|b)*abb", "a*", "(a*)*", "c(a|)*b", "a+b?|ab|b", "[a-c]+x|ab*", "a.*b|[^a]", "(ab|c){2,3}", "x?y?z?", "a{0,2}b{2}", "a{3,}|b", "(a{1,2}){2}", "(a|b|cd)+d", "a|b|c|d", "abc|abd|ab", "abcd|abce|abcf|b",
  "((a))((b)c)?", "(a|ab)(c|bcd)", "[^ab]c|..", "\\n|a\\n?", "a(b(c(d)?)?)?", "((a|b)c){2}", "(a?b?){3}", "(ab?){2,}", "foo|f|fo", "f|fo|foo", "[\\x00-\\x1f]+|[\\x80-\\xff]", "a{0}b", "(abc){0,1}a", "a(|b)c", "a(b||c)d", "(a|aa)+", "(a*b|b*a)c", "[abc]{2}[^abc]", "a.c|.b.", "a(.|\\n)b", "abc|a(b|d)e|[a-z]bf", "(((a|b){2}){2}){1,2}", "((a{1,2}b){2}){2}|b", "(((ab?){2}){2}c){1,2}", "((a?b){1,2}){2}(c{2}){1,2}",
};
static const int NP = sizeof(pats) / sizeof(*pats);
#ifndef FAMILY
#define FAMILY 0
#endif
extern "C" int harness_jobs() { return FAMILY ? FAMILY : NP; }
extern "C" void harness(int job) {
  std::string re = FAMILY ? Gen(job + 1).regex() : std::string(pats[job]); sym_note(re.c_str());
  reflex::Pattern p(re, "r"); Ref f(re.c_str()); sym_assert(!f.bad, "reference parser accepts the pattern");
  int n = sym_int(0, NMAX, "length"); char t[NMAX + 1]; sym_make(t, NMAX, "text"); Expect x; x.build(f, t, n);
  reflex::Matcher m(p, reflex::Input(t, (size_t)n));
  size_t r = m.matches(); sym_out(r != 0); sym_out(m.accept());
  if (r) { size_t a = m.accept(); sym_assert(a >= 1 && a <= (size_t)x.R && x.full(a - 1), "matches() accepted a word of the language and accept() is the first alternative matching it"); sym_assert(m.size() == (size_t)n && m.first() == 0, "the whole input is the match");
    checkText(m, t, 0, n); }
  else sym_assert(x.fullAny() ^ 1, "matches() rejected a word of the language");
}
