// Reused, reassigned and copied matchers and patterns behave like fresh ones.
#include "mt.h"
#include "gen.h"
#include "synt.h"
namespace reflex { extern uint64_t HW; }
#ifndef JOBS
#define JOBS 504
#endif
static const char *const odd[] = { "^[ \\t]*\\i|^[ \\t]*\\j|a|\\n", "^[ \\t]+|[ \\t]*\\i|[ \\t]*\\j|\\n|a\\k", "abc", "abcabc", "a", "bcd", "b[ab]c", "abcde|abcdf", "ab", "a(?=b(?=c))|(?^ab)|c", "(?m)^\\w+$|\\n", "aaaaaaaa|bbbb", "caba", "bab|cab", "\\bab\\b|c" };
static const int NO = sizeof(odd) / sizeof(*odd);
struct CM : reflex::Matcher { const char *t; int n, at; size_t c; CM(const reflex::Pattern &p, const char *t, int n, size_t c, const char *o) : reflex::Matcher(p, reflex::Input(), o), t(t), n(n), at(0), c(c) { }
  size_t get(char *s, size_t m) override { if (!t) return reflex::Matcher::get(s, m); if (c < m) m = c; if (m > (size_t)(n - at)) m = n - at; memcpy(s, t + at, m); at += m; return m; } };
typedef std::vector<uint64_t> V;
static bool step(reflex::Matcher &m, int meth, int ops, int k, V &o) {
  size_t r = meth == 0 ? m.find() : meth == 1 ? m.scan() : meth == 2 ? m.split() : m.matches(); o.push_back(r); if (!r) { o.push_back(m.lineno()); o.push_back(m.last_stop()); return false; }
  o.push_back(m.accept()); o.push_back(m.first()); o.push_back(m.size()); uint64_t h = 0; const char *s = m.begin(); for (size_t i = 0; i < m.size(); ++i) h = h * 31 + (uint8_t)s[i]; o.push_back(h);
  if (ops == 1) { o.push_back(strlen(m.text())); o.push_back(m.lineno()); o.push_back(m.columno()); o.push_back(m.line().size()); o.push_back(m.last_stop()); }
  else if (ops == 2) { o.push_back(m.columno_end()); o.push_back(m.lines()); o.push_back(m.at_bol()); }
  else if (ops == 3 && meth != 2) { o.push_back(m.input()); o.push_back(m.winput()); m.more(); }
  return meth != 3 && k < 40; }
static void session(reflex::Matcher &m, int meth, int ops, V &o) { m.lineno(1); o.push_back(m.at_bob()); o.push_back(m.accept()); for (int k = 0; step(m, meth, ops, k, o); ++k) ; o.push_back(m.has_pattern()); }
static std::string gen(int k) { if (k % 3 == 0) return odd[k / 3 % NO]; Gen g(k * 5 + 510001); std::string t; return k % 3 == 1 ? g.regex() : g.words(t, 0); }
static void same(const V &a, const V &b, const char *what) { sym_assert(a.size() == b.size(), what); for (size_t i = 0; i < a.size() && i < b.size(); ++i) { sym_out(a[i]); sym_assert(a[i] == b[i], what); } }

extern "C" int harness_jobs() { return JOBS; }
extern "C" void harness(int jobno) {
  int how = jobno % 21, job = jobno / 21;
  std::string r1 = gen(job), r2 = gen(job * 3 + 7 + job / 3), text; { Gen g(job * 5 + 510001); if (job % 3 == 2) g.words(text, 2); else if (job % 3 == 1) text = "a\1" "bc\1"; else text = job / 3 % 2 ? "\5ab\n a\n \5ab\n\tb\n a" : "\5abcab\5abcaabcd"; }
  if (text.size() > 40) text.resize(40); while (!text.empty() && text.find_last_of("\5") != std::string::npos && text.size() - text.find_last_of("\5") < 5) text += 'a';
  if (job % 4 == 3) reflex::HW = 0;
  sym_note((r1 + "  /  " + r2 + "  /  " + text).c_str());
  Text t(text.c_str()); static const char dirt[] = "  \n a\n    b ab\n\tcabc abcab\nbcd\xc3\xa9"; std::string db(dirt, sizeof dirt - 1);
  reflex::Pattern p1(r1, "r"), p2(r2, "r"), f(r1, "r"); V a, b, dv;
  int meth = (job + how) % 4 == 3 ? sym_int(2, 3, "method") : sym_int(0, 1, "method"), ops = sym_int(0, 1, "ops") * (1 + job % 3), dmeth = job / 2 % 4, dn = sym_int(0, 1, "used") ? 1 + job % 5 * 2 : 0;
  const char *mo = job % 5 == 1 ? "N" : job % 5 == 2 ? "AT=4" : job % 5 == 3 ? "W" : "";
  reflex::Matcher *m = how == 17 ? new CM(p1, 0, 0, 0, mo) : new reflex::Matcher(how == 4 || how == 5 || how == 19 ? p2 : p1, reflex::Input(db.data(), db.size()), how == 6 || how == 7 ? "ANWT=2" : mo); reflex::Matcher *x = 0; char *buf = 0, *d2 = 0; reflex::Pattern *q = 0; reflex::Input src(t.t, t.n), copy(src);
  if (dn) { if (how == 3) { d2 = new char[db.size() + 1]; memcpy(d2, db.data(), db.size()); d2[db.size()] = 0; m->buffer(d2, db.size() + 1); }
    if (how == 9) { V e; reflex::Matcher w(p2, reflex::Input(db.data(), db.size())); for (int k = 0; k < dn && step(w, 0, 0, k, e); ++k) ; } 
    m->push_stops(); if (how != 13) for (int k = 0; k < dn && step(*m, dmeth, job % 4, k, dv); ++k) ; else m->pop_stops(); }
  switch (how) {
    case 0: m->input(reflex::Input(t.t, t.n)); break;
    case 1: m->in = reflex::Input(t.t, t.n); m->reset(); break;
    case 2: case 3: buf = new char[t.n + 1]; memcpy(buf, t.t, t.n); buf[t.n] = 0; m->buffer(buf, t.n + 1); break;
    case 4: m->pattern(p1); m->input(src); break;
    case 5: m->input(src); m->find(); m->input(src); if (job & 1) m->pattern(p1); else m->pattern(r1); break;
    case 6: m->reset(mo); m->input(src); break;
    case 7: m->in = src; m->reset(mo); break;
    case 8: { reflex::Matcher o(p1, src, mo); *m = o; break; } // assignment over a used matcher
    case 9: x = new reflex::Matcher(p1, src, mo); delete m; m = new reflex::Matcher(*x); delete x; x = 0; break; // copy construction
    case 10: m->input(src); x = m; m = x->clone(); delete x; x = 0; break; // clone, with the pattern of the original still there
    case 11: q = new reflex::Pattern(p1); { reflex::Matcher o(*q, src, mo); session(o, meth, ops, b); } delete q; q = 0; break; // copied pattern
    case 12: { reflex::Pattern tmp(r2, "r"); tmp = p1; q = new reflex::Pattern(tmp); reflex::Pattern &self = tmp; tmp = self; m->pattern(tmp); m->input(src); session(*m, meth, ops, b); m->pattern(*q); break; }
    case 13: p2.assign(r1, "r"); m->pattern(p2); m->input(copy); break; // reassigned pattern
    case 14: { p2 = p1; p1.assign("zzz|y", "r"); m->pattern(p2); m->input(copy); break; } // the original changes
    case 15: { reflex::Matcher o(p1, src, mo); for (int k = 0; k < 2; ++k) { V e; m->input(reflex::Input(db.data(), db.size())); step(*m, 0, 0, k, e); } delete m; m = new reflex::Matcher(o); reflex::Matcher y(p2, reflex::Input(db.data(), db.size())); V e; step(y, 0, 0, 0, e); o = y; step(o, 0, 0, 0, e); break; } // copy, then the original gets other things to do
    case 16: { reflex::Pattern e2; try { p2.assign("(a|b", "r"); } catch (reflex::regex_error&) { } try { e2.assign(r2 + "|[", "r"); } catch (reflex::regex_error&) { } p2 = r2.c_str(); p2.assign(r1, "r"); e2 = p2; sym_assert(e2.size() == p1.size() && e2[0] == r1, "size and regex of a copied pattern"); for (size_t i = 1; i <= p1.size(); ++i) sym_assert(e2[i] == p1[i] && e2.reachable(i) == p1.reachable(i), "alternatives of a copied pattern"); sym_assert(e2.nodes() == p1.nodes() && e2.edges() == p1.edges() && e2.words() == p1.words(), "statistics of a reassigned and copied pattern"); m->pattern(e2); m->input(copy); session(*m, meth, ops, b); break; }
    case 17: m->input(src); break;
    case 18: case 19: case 20: buf = new char[t.n + 1]; memcpy(buf, t.t, t.n); buf[t.n] = 0; if (how == 18) { x = m; m = new reflex::Matcher(*x); delete x; x = 0; } else if (how == 19) m->pattern(p1); else { reflex::Matcher o(p2, src); o.find(); o = *m; delete m; m = o.clone(); } m->buffer(buf, t.n + 1); break; }
  if (b.empty()) session(*m, meth, ops, b); else if (how != 12) sym_cover("pattern");
  delete m; delete q; delete[] buf; delete[] d2;
  { // the fresh one
    reflex::Matcher *m; char *buf = 0; if (how == 2 || how == 3 || how >= 18) { buf = new char[t.n + 1]; memcpy(buf, t.t, t.n); buf[t.n] = 0; m = new reflex::Matcher(f, reflex::Input(), mo); m->buffer(buf, t.n + 1); } else m = new reflex::Matcher(f, reflex::Input(t.t, t.n), mo); session(*m, meth, ops, a); delete m; delete[] buf; }
  static char msg[64]; snprintf(msg, sizeof msg, "way %d of reuse behaves like a fresh matcher", how);
  same(a, b, msg); }
