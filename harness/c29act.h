#pragma once
#include <stddef.h>
#include <string>
// what the scanners generated for c29.cpp report, and the parser side of their interfaces
struct c29Val { int v; }; struct c29Loc { int first_line, first_column, last_line, last_column; };
void c29_ev(int id, size_t first, const char *text, size_t size);
bool c29_ret(int r, const c29Loc *l, const char *text, long leng, long lineno, int val); // l, text: NULL, numbers: -1 when the interface does not have it
void c29_acc(bool ok); extern int c29_off;
#define YYSTYPE c29Val
#define YYLTYPE c29Loc
#define YY_EXTERN_C static
namespace yy { struct position { std::string *filename; unsigned line, column; position() : filename(0), line(0), column(0) { } }; struct location { position begin, end; };
  struct parser { typedef c29Val semantic_type; struct symbol_type { int k; location l; symbol_type(int k = 0, const location &l = location()) : k(k), l(l) { } }; }; }
static inline c29Loc c29Of(const yy::location &y) { c29Loc l; l.first_line = y.begin.line; l.first_column = y.begin.column; l.last_line = y.end.line; l.last_column = y.end.column; return l; }
