#pragma once
#include <stddef.h>
void c15_ev(int id, int state, size_t first, const char *text, size_t size); void c15_echo(char c); bool c15_ret(int r); void c15_jam(); void c15_enter(); void c15_again();
struct C15Sink { void put(int c) { c15_echo((char)c); } }; struct C15Jam { };
#define EV(id) c15_ev(id, start(), matcher().first(), text(), size())
