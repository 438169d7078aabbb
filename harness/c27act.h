// what the generated scanners of C27 call: events are compared with the model in c27.cpp
#pragma once
#include <stddef.h>
#include <reflex/input.h>
void c27_ev(int id, const char *text, size_t size, size_t line, size_t col);
void c27_out(const char *s, size_t n);
void c27_char(int c);
bool c27_ret(int r);
int c27_next();                    // index of the next piece of input, or -1
const char *c27_text(int i); size_t c27_len(int i);
static inline reflex::Input c27_in(int i) { return reflex::Input(c27_text(i), c27_len(i)); }
#define EV(id) c27_ev(id, text(), size(), lineno(), columno())
#define EVY(id) c27_ev(id, yytext, yyleng, yylineno, yycolumno)
