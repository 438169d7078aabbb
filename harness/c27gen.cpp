// native tool: writes the scanner specifications c27_<i>.l of C27 and the table of their entry points
#include "sym.h"
#include <stdio.h>
#include <string>
#ifndef JOBS
#define JOBS 16
#endif
static const char *const W = "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n", *const WY = "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n";
struct S { const char *args, *cls, *rules, *run; };
static const S specs[] = {
  { "", "  virtual int wrap() { int i = c27_next(); if (i < 0) return 1; in(c27_in(i)); return 0; }\n", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n.|\\n { EV(3); }\n", "" },
  { "flex", "  virtual int yywrap() { int i = c27_next(); if (i < 0) return 1; switch_streams(c27_in(i)); return 0; }\n", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n.|\\n { EVY(3); }\n", "" },
  { "flex", "  virtual int yywrap() { int i = c27_next(); if (i < 0) return 1; yyin = c27_in(i); return 0; }\n", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n.|\\n { EVY(3); }\n", "" },
  { "", "", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n\\( { EV(3); int i = c27_next(); if (i >= 0) push_matcher(new_matcher(c27_in(i))); }\n.|\\n { EV(3); }\n<<EOF>> { if (!pop_matcher()) return 0; }\n", "" },
  { "flex", "", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n\\( { EVY(3); int i = c27_next(); if (i >= 0) yypush_buffer_state(yy_create_buffer(c27_in(i), YY_BUF_SIZE)); }\n.|\\n { EVY(3); }\n<<EOF>> { yypop_buffer_state(); if (!YY_CURRENT_BUFFER) yyterminate(); }\n", "" },
  { "", "  Matcher *old = NULL;\n", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n\\( { EV(3); int i = old ? -1 : c27_next(); if (i >= 0) { old = ptr_matcher(); matcher(new_matcher(c27_in(i))); } }\n.|\\n { EV(3); }\n<<EOF>> { if (!old) return 0; del_matcher(ptr_matcher()); matcher(old); old = NULL; }\n", "" },
  { "flex", "  YY_BUFFER_STATE old = NULL;\n", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n\\( { EVY(3); int i = old ? -1 : c27_next(); if (i >= 0) { old = YY_CURRENT_BUFFER; yy_switch_to_buffer(yy_create_buffer(c27_in(i), YY_BUF_SIZE)); } }\n.|\\n { EVY(3); }\n<<EOF>> { if (!old) yyterminate(); yy_delete_buffer(YY_CURRENT_BUFFER); yy_switch_to_buffer(old); old = NULL; }\n", "" },
  { "", "", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n\\( { EV(3); int i = c27_next(); if (i >= 0) in(c27_in(i)); }\n.|\\n { EV(3); }\n", "" },
  { "flex", "", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n\\( { EVY(3); int i = c27_next(); if (i >= 0) yyrestart(c27_in(i)); }\n.|\\n { EVY(3); }\n", "" },
  { "x", "", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n<*>\\( { EV(3); int i = c27_next(); if (i >= 0) { push_matcher(new_matcher(c27_in(i))); push_state(X); } }\n<X>[a-z] { EV(4); }\n<X>[0-9]+ { EV(5); return 5; }\n<*>.|\\n { EV(3); }\n<*><<EOF>> { pop_state(); if (!pop_matcher()) return 0; }\n", "" },
  { "full", "", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); return 2; }\n\\( { EV(3); int i = c27_next(); if (i >= 0) push_matcher(new_matcher(c27_in(i))); }\n.|\\n { EV(3); }\n<<EOF>> { if (!pop_matcher()) return 0; }\n", "" },
  { "fast", "  virtual int wrap() { int i = c27_next(); if (i < 0) return 1; in(c27_in(i)); return 0; }\n", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); return 2; }\n.|\\n { EV(3); }\n", "" },
  { "flex", "", "[a-z]+ { EVY(1); ECHO; }\n[0-9]+ { EVY(2); int c = yyinput(); c27_char(c); }\n\\( { EVY(3); unput('1'); unput('a'); }\n.|\\n { EVY(3); }\n", "" },
  { "", "", "[a-z]+ { EV(1); echo(); }\n[0-9]+ { EV(2); int c = matcher().input(); c27_char(c); }\n\\( { EV(3); matcher().unput('1'); matcher().unput('a'); }\n.|\\n { EV(3); }\n", "" },
  { "", "", "[a-z]+ { EV(1); }\n[0-9]+ { EV(2); }\n.|\\n { EV(3); }\n", "char *q = new char[n + 1]; for (size_t i = 0; i < n; ++i) q[i] = t[i]; q[n] = 0; @; l.buffer(q, n + 1);" },
  { "flex", "", "[a-z]+ { EVY(1); }\n[0-9]+ { EVY(2); }\n.|\\n { EVY(3); }\n", "@; l.in(t, n);" } };
static std::string decl(std::string r, std::string d, bool flex) { if (r.empty()) return d + "(reflex::Input(t, n)" + (flex ? ", NULL" : "") + ");"; size_t k = r.find("@"); return r.substr(0, k) + d + r.substr(k + 1); }
extern "C" int harness_jobs() { return 1; }
extern "C" void harness(int) { FILE *h = fopen("c27_run.h", "w"); std::string tab;
  for (int i = 0; i < JOBS; ++i) { const S &s = specs[i % 16]; std::string a = s.args, N = std::to_string(i), n = "c27_" + N; bool flex = a == "flex"; FILE *f = fopen((n + ".l").c_str(), "w");
    std::string o = "%top{\n#include \"c27act.h\"\n#include <streambuf>\n#include <ostream>\n%}\n%class{\n public:\n"; o += flex ? "  virtual void LexerOutput(const char *s, size_t n) { c27_out(s, n); }\n" : "  struct Sink { void put(int c) { char b = c; c27_out(&b, 1); } void write(const char *s, size_t n) { c27_out(s, n); } }; Sink sink; Sink& out() { return sink; } void out(std::ostream&) { } void echo() { sink.write(matcher().begin(), matcher().size()); }\n"; o += s.cls; o += "%}\n";
    if (a == "x") o += "%x X\n"; o += "%option noyywrap\n%%\n"; o += s.rules; o += "%%\nextern \"C\" void c27_run_" + N + "(const char *t, size_t n) { " + decl(s.run, "c27n" + N + "::L l", flex) + " while (c27_ret(l." + (flex ? "yylex" : "lex") + "())) continue; }\n";
    fputs(o.c_str(), f); fclose(f); f = fopen((n + ".args").c_str(), "w"); fprintf(f, "--namespace=c27n%d\n--lexer=L\n", i); if (a.size() > 1) fprintf(f, "--%s\n", a.c_str()); fclose(f);
    fprintf(h, "extern \"C\" void c27_run_%d(const char*, size_t);\n", i); tab += "c27_run_" + N + ","; }
  fprintf(h, "static void (*const c27_runs[])(const char*, size_t) = { %s };\n", tab.c_str()); fclose(h); }
