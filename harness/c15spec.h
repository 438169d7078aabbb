// Deterministic family of scanner specifications for reflex (the index selects one): start conditions, rules, actions and code generation options.
#pragma once
#include <string>
#include <vector>
#include <stdint.h>
enum OpK { O_RET, O_START, O_PUSH, O_POP, O_LESS, O_MORE };
struct Op { OpK k; int a; };
struct SRule { unsigned st, sc; int blk; int how; /* 0: no <>, 1: <A,B>, 2: <*>, 3: scope */ std::string re, ref, own; bool eof, bar; int id; std::vector<Op> op; bool anch() const { return ref[0] == '^' || ref[ref.size() - 1] == '$'; } };
static const char *const c15st[] = { "INITIAL", "SA", "SB", "SC" };
struct Spec {
  int idx, ns; bool excl[4]; std::vector<SRule> rules; std::vector<unsigned> scopeOf; std::string opt, cmd; bool flex, full, fast, find, jam, ci, dotall, freesp, batch; bool hasMore; uint32_t s; int encs[4];
  uint32_t r(uint32_t n) { s = s * 1664525u + 1013904223u; return (s >> 13) % n; }
  char ch() { return "abc"[r(3)]; }
  // one piece of a regex: spelled for reflex in re, for the reference in ref
  void piece(std::string &re, std::string &ref, int q) { std::string a, b; bool one = true; switch (r(8)) {
      case 0: case 1: a = b = std::string(1, ch()); break;
      case 2: { char x = ch(), y = ch(); a = "["; a += x; if (x != y) a += y; a += "]"; b = a; break; }
      case 3: { a = "[^"; a += ch(); a += "]"; b = a; break; }
      case 4: a = "{D1}"; b = "([ab])"; break;
      case 5: a = "{D2}"; b = "(a|bc)"; break;
      case 6: { char x = ch(), y = ch(); a = "\""; a += x; a += "+"; a += y; a += "\""; b = x; b += "\\+"; b += y; one = false; if (r(2)) { a = "\"a\""; b = "a"; one = true; } break; }
      default: a = b = r(2) ? "(a|bc)" : "."; }
    const char *qs = ""; if (one) { if (q == 1) { static const char *k[] = { "*", "?", "{0,2}" }; qs = k[r(3)]; } else if (q == 2) { static const char *k[] = { "", "+", "{1,2}", "{2}" , "" , "" }; qs = k[r(6)]; } }
    re += a; re += qs; ref += b; ref += qs; if (freesp && r(2)) re += " "; }
  void regex(SRule &u) { std::string re, ref; int z = r(20);
    if (z == 0) { u.re = "(a|b)/c"; u.ref = "(a|b)(?=c)"; return; } if (z == 1) { u.re = "^[ab]+"; u.ref = u.re; return; } if (z == 2) { u.re = "[bc]+$"; u.ref = u.re; return; } if (z == 3) { u.re = u.ref = "\\n"; return; } if (z == 4 && !freesp) { u.re = u.ref = "[ \\t]+"; return; }
    if (r(4) == 0) piece(re, ref, 1); piece(re, ref, 2); if (r(3) == 0) piece(re, ref, r(2) + 1); if (r(4) == 0) { re += "|"; ref += "|"; piece(re, ref, 2); } u.re = re; u.ref = ref; }
  explicit Spec(int i) : idx(i), hasMore(false), s(i * 2654435761u + 4711u), encs() { for (int k = 0; k < 4; ++k) r(2);
    ns = 1 + (i % 4 == 0 ? 0 : r(3)); for (int k = 0; k < 4; ++k) excl[k] = k && r(2); 
    static const char *v[] = { "", "full", "fast", "flex", "find", "flex full", "flex fast", "jam", "find full", "find fast", "", "flex jam", "ci", "dotall full", "freespace", "ci fast", "batch", "fast", "full", "freespace flex" };
    std::string o = v[i % 20]; flex = has(o, "flex"); full = has(o, "full"); fast = has(o, "fast"); find = has(o, "find"); jam = has(o, "jam") && !flex; ci = has(o, "ci"); dotall = has(o, "dotall"); freesp = has(o, "freespace"); batch = has(o, "batch");
    bool wantMore = !find && !jam && i % 5 == 3; int n = 2 + r(5), id = 1; unsigned scope = 0; int left = 0;
    for (int k = 0; k < n; ++k) { SRule u; u.eof = false; u.bar = false; u.id = 0; u.how = 0; u.st = u.sc = 0; u.blk = 0; 
      if (ns > 1) { if (left > 0) { --left; u.how = 3; u.st = scope; } else { int z = r(8); if (z < 3) u.how = 0; else if (z < 6) { u.how = 1; u.st = pick(); } else if (z == 6) u.how = 2; else { scope = pick(); left = r(3); u.how = 3; u.st = scope; if (r(3) == 0) { u.blk = 1; for (int q = 0; q < ns; ++q) if (scope >> q & 1) ++encs[q]; } } } if (u.how == 3) { u.sc = scope; int q = r(ns); switch (r(6)) { case 0: u.st |= 1u << q; u.own = std::string("<") + c15st[q] + ">"; break; case 1: if ((scope >> q & 1) && (scope & (scope - 1))) { u.st &= ~(1u << q); u.own = std::string("<^") + c15st[q] + ">"; } break; default: ; } } }
      if (u.how == 0) { for (int q = 0; q < ns; ++q) if (!excl[q]) u.st |= 1u << q; } else if (u.how == 2) u.st = (1u << ns) - 1;
      u.eof = !find && r(7) == 0; if (u.eof && u.how == 0) u.st = (1u << ns) - 1; if (!u.eof) { do regex(u); while (wantMore && (u.re[0] == '^' || u.re[u.re.size() - 1] == '$')); }
      if (!u.eof && k + 1 < n && r(6) == 0) u.bar = true; else { u.id = id++; ops(u, wantMore); } rules.push_back(u); }
    if (wantMore) { hasMore = true; SRule u; u.eof = u.bar = false; u.how = 2; u.st = (1u << ns) - 1; u.re = u.ref = ".|\\n"; u.id = id++; rules.push_back(u); if (ns == 1) rules.back().how = 0; }
    // the eof rule of a state: only the first one counts; start() in it goes to a state whose eof rule ends the scan
  }
  static bool has(const std::string &o, const char *w) { return o.find(w) != std::string::npos; }
  unsigned pick() { unsigned m = 1u << r(ns); if (r(2)) m |= 1u << r(ns); return m; }
  void ops(SRule &u, bool more) { Op o; if (u.eof) { int q = u.st == 1 ? 0 : u.st == 2 ? 1 : u.st == 4 ? 2 : -1; if (q >= 0 && q + 1 < ns && r(2)) { o.k = O_START; o.a = q + 1 + r(ns - q - 1); u.op.push_back(o); return; } o.k = O_RET; o.a = 100 + u.id; u.op.push_back(o); return; }
    if (more && r(3) == 0) { o.k = O_MORE; o.a = 0; u.op.push_back(o); return; }
    if (ns > 1) switch (r(6)) { case 0: case 1: o.k = O_START; o.a = r(ns); u.op.push_back(o); break; case 2: o.k = O_PUSH; o.a = r(ns); u.op.push_back(o); break; case 3: o.k = O_POP; o.a = 0; u.op.push_back(o); break; default: ; }
    if (!more && r(6) == 0) { o.k = O_LESS; o.a = 1; u.op.push_back(o); }
    if (r(3) == 0) { o.k = O_RET; o.a = 100 + u.id; u.op.push_back(o); } }
  int actionOf(int k) const { while (k < (int)rules.size() && rules[k].bar) ++k; return k; } // rule whose action rule k performs
  std::string code(const SRule &u) const { std::string c = "{ EV(" + std::to_string(u.id) + ");"; for (size_t i = 0; i < u.op.size(); ++i) { const Op &o = u.op[i]; std::string a = std::to_string(o.a), s = c15st[o.a & 3]; switch (o.k) {
        case O_RET: c += " return " + a + ";"; break; case O_START: c += flex ? " BEGIN " + s + ";" : " start(" + s + ");"; break; case O_PUSH: c += flex ? " yy_push_state(" + s + ");" : " push_state(" + s + ");"; break;
        case O_POP: c += flex ? " yy_pop_state();" : " pop_state();"; break; case O_LESS: c += flex ? " yyless(1);" : " matcher().less(1);"; break; case O_MORE: c += flex ? " yymore();" : " matcher().more();"; break; } }
    return c + (idx % 3 ? " }" : "\n   /* } */ }"); }
  static std::string names(unsigned m, const char *sep = 0) { std::string o; for (int q = 0; q < 4; ++q) if (m >> q & 1) { if (sep) o += sep; else if (o.size()) o += ','; o += c15st[q]; } return o; }
  int enters(int q) const { return encs[q] + (enter() && !excl[q] ? 1 : 0); } // initial code blocks of a start condition
  bool enter() const { return idx % 4 == 3; } bool twice() const { return idx % 7 == 2 && !jam; } std::string lex() const { return idx % 9 == 4 ? "tok" : flex ? "yylex" : "lex"; }
  std::string text() const { bool nest = false; std::string N = std::to_string(idx), o = "%top{\n#include \"c15act.h\"\n%}\n"; if (o.find("%top{") == 0) o = "%top{\n#include \"c15act.h\"\n}\n";
    o += "%class{\n" + std::string(flex ? "  virtual void LexerOutput(const char *s, size_t n) { for (size_t i = 0; i < n; ++i) c15_echo(s[i]); }\n" : "  C15Sink sink; C15Sink &out() { return sink; } void out(std::ostream&) { }\n") + "}\n";
    for (int q = 1; q < ns; ++q) o += q > 1 && excl[q] == excl[q - 1] && idx % 2 ? (o.erase(o.size() - 1), std::string(" ") + c15st[q] + "\n") : std::string(excl[q] ? (idx % 3 ? "%x " : "%xstate ") : (idx % 3 ? "%s " : "%state ")) + c15st[q] + "\n";
    o += std::string("D1 [ab]\n") + (idx % 3 == 1 ? "D3 bc\nD2  a|{D3}\n" : "/* comment */\nD2  a|bc\n") + "%option noyywrap\n%%\n" + (enter() ? "%{\n  c15_enter();\n%}\n" : ""); unsigned sc = 0;
    for (size_t k = 0; k < rules.size(); ++k) { const SRule &u = rules[k]; if (sc && (u.how != 3 || u.sc != sc || u.blk)) { o += nest ? "}\n}\n" : "}\n"; sc = 0; } if (u.how == 3 && !sc) { sc = u.sc; nest = idx % 4 == 2 && (sc & (sc - 1)); if (nest) { unsigned lo = sc & -sc; o += "<" + names(lo) + ">{\n<" + names(sc & ~lo) + ">{\n"; } else o += "<" + names(sc) + ">{\n"; if (u.blk) o += "%{\n  c15_enter();\n%}\n"; }
      if (idx % 6 == 3) o += "// a comment\n\n"; else if (idx % 6 == 5) o += "\n/* a\n   comment */\n";
      std::string p = u.how == 1 ? (idx % 5 == 1 && u.st != (1u << ns) - 1 ? "<*" + names(~u.st & ((1u << ns) - 1), ",^") + ">" : "<" + names(u.st) + ">") : u.how == 3 ? u.own : u.how == 2 ? "<*>" : "";
      o += p + (u.eof ? "<<EOF>>" : u.re) + (u.bar ? "  |\n" : "  " + code(u) + "\n"); }
    if (sc) o += nest ? "}\n}\n" : "}\n";
    o += "%%\nextern \"C\" void c15_run_" + N + "(const char *t, size_t n) { try { c15n" + N + "::L l" + "(reflex::Input(t, n)" + (flex ? ", NULL" : "") + "); for (;;) if (!c15_ret(l." + lex() + "())) break;" + (twice() ? " c15_again(); l.in(reflex::Input(t, n)); for (;;) if (!c15_ret(l." + lex() + "())) break;" : "") + " } catch (C15Jam&) { c15_jam(); } }\n"; return o; }
  std::vector<std::string> args() const { std::vector<std::string> a; std::string N = std::to_string(idx); a.push_back("--namespace=c15n" + N); a.push_back("--lexer=L"); if (flex) a.push_back("--flex"); if (full) a.push_back("--full"); if (fast) a.push_back("--fast"); if (find) a.push_back("--find"); if (jam) { a.push_back("--nodefault"); a.push_back("--exception=C15Jam()"); } if (ci) a.push_back("--case-insensitive"); if (dotall) a.push_back("--dotall"); if (freesp) a.push_back("--freespace"); if (batch) a.push_back("--batch"); if (idx % 4 == 1) a.push_back("--noindent"); if (idx % 9 == 4) a.push_back("--lex=tok"); return a; }
  std::string refopt() const { std::string o = "m"; if (ci) o += 'i'; if (dotall) o += 's'; return o; }
};
