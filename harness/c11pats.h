// The patterns whose exported tables and code are compared (shared by the generator and the harness).
#pragma once
#include <string>
#include "gen.h"
#ifndef JOBS
#define JOBS 240
#endif
struct C11 { const char *re, *al; };
static const C11 c11ctx[] = {
#include "cases_ctx.inc"
};
static const C11 c11odd[] = { {"(^[ \\t]+)|(^[ \\t]+\\i)|(^[ \\t]*\\j)|(\\j)|([a-z]|\\n)", " \na "}, {"(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)", " \na\t"}, {"(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)|(?^^\\h*\\n)", " \na "}, {"(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(^\\h*#\\k)|(^\\h*#)|(.|\\n)", " \na#"}, {"(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(\\h*#\\k?)|(.|\\n)", " \na#"},
  {"^\\h*(\\i|\\j)|a|\\n", " \na "}, {"(^\\h+\\i)|(^\\h*\\j)|\\j|a\\n?", " \na "}, {"(?m)^$|a", "a\nb "}, {"(?m)\\b$|b", "a\nb "}, {"(?m)^\\ba\\b$|\\<b", "a\nb "}, {"(?m)^a$|a|\\n", "a\nb\r"}, {"\\Aa\\b\\z|b", "ab a"}, {"(?m)a\\b$\\n?|b", "a\nb "}, {"a(?=b(?=c))|c", "abca"}, {"(?^ab)|[ab]+", "abca"}, {"(?^a\\b)|[ab]", "ab a"}, {"a*?b|(a|b)+?c", "abca"}, {"(ab|a)(?=b|\\n)|b", "ab\na"}, {"a(?=b+\\b)|b", "ab a"}, {"\\ba(?=b)|\\Bb|ab", "ab a"}, {"(?m)a(?=b$)|b", "ab\na"}, {"[\\x00-\\xff]", "\xff\x80 a"}, {"[^a]|a+", "\xff\x7f a"}, {"\\xff+|[\\x7f-\\x81]\\xfe?", "\xff\x7f\xfe\x80"}, {"(?u)\\p{Lu}|.", "\xc3\xa9\x80 A" + 0}, {"(a|b|c|d|e|f|g)(h|i|j)?(k|l)*", "ahka"}, {"\\$|\\'|\\\\|\\\"|\\?", "$'\\\""}, {"\\Ba\\B|b", "ab a"}, {"\\>a|\\<a|a\\>|a\\<|a", "ab a"}, {"(a\\b)+|b", "ab a"} };
static const int C11C = sizeof(c11ctx) / sizeof(*c11ctx), C11O = sizeof(c11odd) / sizeof(*c11odd);
static inline int c11n() { return JOBS + C11C + C11O; }
static inline void c11(int i, std::string &re, std::string &opt, std::string &text) {
  re.clear(); opt.clear(); text.clear();
  if (i >= JOBS) { const C11 &c = i - JOBS < C11C ? c11ctx[i - JOBS] : c11odd[i - JOBS - C11C]; bool ind = i - JOBS - C11C >= 0 && i - JOBS - C11C < 7; re = c.re; if (ind) { opt = "m"; text = "a\n a\n  a\n"; for (int k = 0; k < 5; ++k) { text += '\5'; text += c.al; } text += "\na\n"; } else { for (int k = 0; k < 4; ++k) { text += '\5'; text += c.al; } text += c.al[0]; text += c.al[1]; } return; }
  Gen g(i * 7 + 110011); if (i & 1) { re = g.regex(); text = "a\5abc_" "bc\1\5abc_\5abc_" "ca"; } else { Gen h(i * 3 + 5); h.words(text, 3); re = h.o; } }
