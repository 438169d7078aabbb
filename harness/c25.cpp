// Matching any bytes with any pattern stays inside the buffers, uses no uninitialised value and always makes progress.
#include "mt.h"
#include "gen.h"
#include "synt.h"
namespace reflex { extern uint64_t HW; }
#ifndef NSY
#define NSY 3
#endif
#ifndef JOBS
#define JOBS 200
#endif
struct Ctx { const char *re, *al; };
static const Ctx cases[] = {
#include "cases_ctx.inc"
};
static const int NC = sizeof(cases) / sizeof(*cases);
// patterns of unusual shape: anchors inside and repeated, nested lookahead, empty-only rules, indentation, UTF-8 dots
static const char *const odd[] = { "(^|a)*b", "\\bx\\b\\b", "^$", "$", "^", "\\A\\Z", "\\A|\\Z|b", "a(?=b(?=c))", "(?=a)a", "a(?=b*)", "(?^ab*)|a.", "(?^.)", "^[ \\t]*\\i|^[ \\t]*\\j|a", "^[ \\t]+|[ \\t]*\\i|[ \\t]*\\j|\\n|a\\k", "(?m)^\\w+$|\\n", "\\<a\\>|\\Ba\\B", "a*?b|a+?", "(a|ab)(c|bcd)(d*)", "(?s).{2,4}", "(?u:.)", "(?u)\\p{L}+|.", "\\xff+|\\x00|[\\x80-\\xbf]", ".*", "(.*\\n)?", "a{0}", "(a{0,3}b?)*c", "\\R|.", "\\X", "[^\\n]*\\n", "abcdefghijklmnopqrstuvwxyz|b", "a[^\\n]{7}|.\\n", "(?i)ab|cd|ef|gh", "aaaaaaaa|bbbb", "[ab][ab][ab][ab]c", "(?^\\n)|a", "a?\\Z", "a\\b|\\n^", "()", "a|()" };
static const int NO = sizeof(odd) / sizeof(*odd);
struct CM : reflex::Matcher { const char *t; int n, at; size_t c; bool w; CM(reflex::Pattern &p, const char *t, int n, size_t c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c), w(false) { }
  size_t get(char *s, size_t m) override { sym_assert(m > 0, "get() is called with room"); if (c < m) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
extern "C" int harness_jobs() { return JOBS + NO * 3 + NC * 2; }
extern "C" void harness(int job) {
  std::string re, text, opt; const char *al = 0; int kind = job % 4;
  if (job >= JOBS + NO * 3) { int k = job - JOBS - NO * 3; re = cases[k % NC].re; al = cases[k % NC].al; for (int i = 0; i < 3; ++i) { text += '\5'; text += al; } text += al[k & 3]; text += "ab"; }
  else if (job >= JOBS) { int k = job - JOBS; re = odd[k % NO]; text = k / NO == 0 ? "\1\1\1" : k / NO == 1 ? "\5ab\n \5a\tb \5ab\n \5a\n_ a" : "aab\1 cb\n\1 a\xc3\1"; }
  else { Gen g(job * 7 + 310001); if (job % 5 == 0) { Synt s(job + 310001); Ref f; s.build(f); re = s.o; opt = s.opt; text = "\1\1"; }
    else if (job % 5 < 3) { re = g.regex(); text = "a\1" "bc\1\1"; if (job % 5 == 2) { re = "\\n|[^\\n]{3}|" + re; text = "\5abc\n" + text.substr(0, 4) + std::string(20, 'a') + "\1"; } }
    else re = g.words(text, NSY); }
  if (job % 3 == 2) reflex::HW = 0;
  sym_note((re + "  /" + opt + "/  " + text).c_str());
  if (!opt.empty() && opt.find('=') != std::string::npos && opt[opt.size() - 1] != ';') opt += ';';
  try { reflex::Pattern p(re, opt + "r"); Text t(text.c_str()); int n = t.n;
    int how = sym_int(0, 5, "how"), meth = sym_int(0, 3, "method"), ops = how == 0 || how == 2 ? sym_int(0, 6, "ops") : (how + meth + job) % 7; bool edit = false; const char *mo = kind == 1 ? "N" : kind == 2 ? "A" : kind == 3 ? "NW" : "";
    reflex::Matcher *m; char *b = 0; CM *cm = 0;
    if (how == 0) { b = new char[n + 1]; memcpy(b, t.t, n); b[n] = 0; m = new reflex::Matcher(p, reflex::Input(), mo); m->buffer(b, n + 1); }
    else if (how == 1) { b = new char[n]; memcpy(b, t.t, n); m = new reflex::Matcher(p, reflex::Input(b, n), mo); }
    else if (how <= 4) m = cm = new CM(p, t.t, n, how == 2 ? 1 : how == 3 ? 7 : 100, mo);
    else { b = new char[n]; memcpy(b, t.t, n); m = new reflex::Matcher(p, reflex::Input(b, n), mo); m->buffer(sym_int(0, 1, "block") * 5); }
    size_t lim = 2 * n + 2, k = 0; 
    for (;;) { size_t r = meth == 0 ? m->find() : meth == 1 ? m->scan() : meth == 2 ? m->split() : m->matches(); sym_out(r); if (!r) break;
      if (++k > lim) { sym_fail("the loop does not end"); break; }
      sym_assert(edit || m->first() + m->size() <= (size_t)n, "the match is inside the input"); uint64_t h = 0; const char *s = m->begin(); for (size_t i = 0; i < m->size(); ++i) h = h * 31 + (uint8_t)s[i]; sym_out(h);
      if (meth == 2 && r == reflex::Matcher::Const::EMPTY && ops >= 4) break;
      if (ops == 1) { sym_out(strlen(m->text())); sym_out(m->lineno()); sym_out(m->columno()); sym_out(m->lines()); }
      else if (ops == 2) { sym_out(m->str().size()); sym_out(m->wstr().size()); std::string l = m->line(); sym_out(l.size()); sym_out(m->columns()); sym_out(m->columno_end()); sym_out(m->wchr()); sym_out(m->wpair().second.size()); }
      else if (ops == 3) { if (how != 0 && meth < 2 && m->size() > 2) m->less(m->size() - 1); else if (meth < 2) { m->span(); sym_out(m->size()); } sym_out(m->lineno_end()); sym_out((*m)[0].second); sym_out((*m)[1].second); }
      else if (ops == 4) { sym_out(m->peek()); sym_out(k & 1 ? m->input() : m->winput()); sym_out(m->at_bol()); sym_out(m->at_bow() + 2 * m->at_eow()); }
      else if (ops == 5) { if (k <= 2) { m->input(); m->unput('a'); if (k == 2) m->wunput(0xe9); edit = true; lim += 4; } sym_out(m->columno()); }
      else if (ops == 6) { if (k & 1) sym_out(m->skip(k & 2 ? 'b' : '\n')); else sym_out(m->skip("ab") ? 1 : 0); if (k == 3) sym_out(strlen(m->rest())); }
      if (meth == 3) break; }
    if (meth != 3) { size_t r2 = m->find(); (void)r2; sym_out(m->at_end()); sym_out(m->lineno()); if (ops == 1) { sym_out(strlen(m->text())); sym_out(strlen(m->rest())); } }
    delete m; sym_cover("done"); }
  catch (reflex::regex_error& e) { sym_assert(job >= JOBS, "generated patterns compile"); sym_cover("rejected"); } }
