// Scanner specifications with the Bison interfaces of reflex (the index selects one).
#pragma once
#include <string>
#include <vector>
struct BRule { const char *re, *ref; int ret; };
static const BRule c29_rules[2][7] = {
  { { "ab", "ab", 1 }, { "[a-z]+", "[a-z]+", 1 }, { "\\n", "\\n", 1 }, { "b\\n+a", "b\\n+a", 1 }, { "[ \\t]+", "[ \\t]+", 0 }, { "\\\"[^\"]*\\\"", "\"[^\"]*\"", 1 }, { ".", ".", 1 } },
  { { "a/b", "a(?=b)", 1 }, { "[ab]\\n?", "[ab]\\n?", 1 }, { "\\n+", "\\n+", 0 }, { "^\\t", "^\\t", 1 }, { "[ \\t]+$", "[ \\t]+$", 1 }, { "\\\"[^\"]*", "\"[^\"]*", 1 }, { ".", ".", 0 } } };
static const char *const c29_kinds[] = { "--bison", "--bison --flex", "--bison-locations", "--bison-locations --flex", "--bison-bridge", "--bison-bridge --flex", "--bison-bridge --bison-locations", "--bison-bridge --bison-locations --flex", "--bison-cc", "--bison-cc --bison-locations", "--bison-complete --bison-locations", "--reentrant --flex", "--bison-complete" };
struct BSpec { int idx, kind, set; bool flex, loc; BSpec(int i) : idx(i), kind(i % 13), set(i / 13 % 2), flex(std::string(c29_kinds[i % 13]).find("--flex") != std::string::npos), loc(std::string(c29_kinds[i % 13]).find("locations") != std::string::npos) { }
  std::vector<std::string> args() const { std::vector<std::string> a; std::string s = c29_kinds[kind], w; for (size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == ' ') { a.push_back(w); w.clear(); } else w += s[i]; a.push_back("--prefix=p" + std::to_string(idx)); a.push_back("--namespace=c29n" + std::to_string(idx)); if (idx % 3 == 1) a.push_back("--full"); if (idx % 3 == 2) a.push_back("--fast"); return a; }
  std::string text() const { std::string N = std::to_string(idx), p = "p" + N, o = "%top{\n#include \"c29act.h\"\n#define YY_SCANNER c29_sc_" + N + "\n%}\n%option noyywrap\n%%\n"; if (o.find("%top{") == 0) o = "%top{\n#include \"c29act.h\"\n#define YY_SCANNER c29_sc_" + N + "\n}\n%option noyywrap\n%%\n";
    for (int k = 0; k < 7; ++k) { const BRule &r = c29_rules[set][k]; std::string id = std::to_string(k + 1); o += r.re; o += "  { c29_ev(" + id + ", matcher().first(), text(), size());"; if (kind >= 2 && kind <= 9) o += " yylval.v = " + id + ";"; if (r.ret) o += kind == 10 ? " return yy::parser::symbol_type(" + id + ", location());" : kind == 12 ? " return yy::parser::symbol_type(" + id + ");" : " return " + id + ";"; o += " }\n"; }
    o += "%%\nusing namespace c29n" + N + ";\n"; if (kind == 1 || kind == 3) o += "#undef " + p + "text\n#undef " + p + "leng\n#undef " + p + "lineno\n";
    o += "extern \"C\" void c29_run_" + N + "(const char *t, size_t n) { c29Val v; c29Loc l; v.v = 0; (void)v; (void)l;"; std::string in = "in(reflex::Input(t, n));", get = p + "get_text(s), " + p + "get_leng(s), " + p + "get_lineno(s), ", none = "0, -1, -1, ", var = p + "text, " + p + "leng, " + p + "lineno, ";
    std::string init = " yyscan_t s; yylex_init(&s); static_cast<yyscanner_t*>(s)->" + in, fini = " yylex_destroy(s);", call, loc = "0, ", txt = none, val = "-1";
    if (kind == 5 || kind == 7 || kind == 11) init = " yyscan_t s; int e = 0; yylex_init_extra(&e, &s); c29_acc(" + p + "get_extra(s) == &e); " + p + "set_extra(&v, s); c29_acc(" + p + "get_extra(s) == &v && static_cast<yyscanner_t*>(s)->yyextra == &v); static_cast<yyscanner_t*>(s)->" + in + " " + p + "set_debug(3, s); c29_acc(" + p + "get_debug(s) == 3);";
    if (kind < 4) { init = " YY_SCANNER." + in; fini = ""; } else if (kind == 8 || kind == 9 || kind == 10 || kind == 12) { init = " " + p + "Lexer s(reflex::Input(t, n));"; fini = ""; }
    switch (kind) { case 0: call = "yylex()"; break; case 1: call = p + "lex()"; txt = var; break; case 2: call = "yylex(&v, &l)"; break; case 3: call = p + "lex(&v, &l)"; txt = var; break; case 4: call = "yylex(&v, s)"; break; case 5: call = "yylex(&v, s)"; txt = get; break;
      case 6: call = "yylex(&v, &l, s)"; break; case 7: call = "yylex(&v, &l, s)"; txt = get; break; case 8: call = "s." + p + "lex(v)"; break; case 9: call = idx % 2 ? "s." + p + "lex(v, y)" : "s." + p + "lex(&v, &y)"; break; case 11: call = "yylex(s)"; txt = get; break; default: call = "s." + p + "lex()"; }
    if (kind >= 2 && kind <= 9) val = "v.v"; if (kind == 2 || kind == 3 || kind == 6 || kind == 7 || kind == 9 || kind == 10) loc = "&l, ";
    o += init + " for (;;) { "; if (kind == 9) o += "yy::location y; "; if (kind == 10 || kind == 12) o += "yy::parser::symbol_type z = " + call + "; int r = z.k; l = c29Of(z.l); "; else o += "int r = " + call + "; "; if (kind == 9) o += "l = c29Of(y); ";
    o += "if (!c29_ret(r, " + loc + txt + val + ")) break;"; if (kind == 5 || kind == 7 || kind == 11) o += " if (!c29_off) { int w = " + p + "get_lineno(s); " + p + "set_lineno(w + 3, s); c29_off = 3; c29_acc(" + p + "get_lineno(s) == w + 3); }"; o += " }" + fini + " }\n"; return o; }
};
