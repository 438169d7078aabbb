// Stream buffers and buffered input: every way of reading delivers the bytes of the underlying input; DOS variants turn CR LF into LF.
#include "sym.h"
#include <reflex/input.h>
#include "istr.h"
#include <string>
#include <string.h>
typedef uint8_t B; using namespace reflex;
#ifndef NB
# define NB 4
#endif
#ifndef OPS
# define OPS 2
#endif
typedef struct Input::file_encoding FE;
enum { BIG = BufferedInput::SIZE, MX = BIG + 64 };
static uint8_t d[MX], want[MX]; static int nd, nw; static wchar_t wd[16];
static void enc(int c) { if (c < 0x80) d[nd++] = c; else if (c < 0x800) { d[nd++] = 0xC0 | c >> 6; d[nd++] = 0x80 | (c & 63); } else if (c > 0xFFFF) { d[nd++] = 0xF0 | c >> 18; d[nd++] = 0x80 | (c >> 12 & 63); d[nd++] = 0x80 | (c >> 6 & 63); d[nd++] = 0x80 | (c & 63); } else { d[nd++] = 0xE0 | c >> 12; d[nd++] = 0x80 | (c >> 6 & 63); d[nd++] = 0x80 | (c & 63); } }
// the source: kinds 0 C string with size, 1 NUL-terminated string, 2 wide string, 3 plain file, 4 Latin-1 file, 5 UTF-16 file, 6 long file, 7 long string, 8 C++ stream
static Input source(int kind) {
  nd = 0; int m;
  if (kind < 2 || kind == 3 || kind == 8) { m = sym_int(0, NB, "bytes"); static uint8_t b[NB + 1]; if (m) sym_make(b, m, "text"); b[m] = 0; if (kind == 1) for (int i = 0; i < m; ++i) sym_assume(b[i] != 0); if (kind == 3 && m >= 2) { sym_assume(!((b[0] == 0xFE) & (b[1] == 0xFF)) & !((b[0] == 0xFF) & (b[1] == 0xFE))); if (m >= 3) sym_assume(!((b[0] == 0xEF) & (b[1] == 0xBB) & (b[2] == 0xBF))); if (m >= 4) sym_assume(!((b[0] == 0) & (b[1] == 0) & (b[2] == 0xFE) & (b[3] == 0xFF))); } memcpy(d, b, nd = m);
    if (kind == 0) return Input((const char*)b, m); if (kind == 1) return Input((const char*)b); if (kind == 8) return Input(*new std::istream(new MemBuf((char*)d, m, sym_int(0, 2, "chunk")))); return Input(sym_file(b, m)); }
  if (kind == 2) { m = sym_int(0, 3, "chars"); int k = 0; for (int i = 0; i < m; ++i) { int f = i < 2 ? sym_int(0, 2, "form") : 0; if (f == 0) { uint16_t c; sym_make(&c, 2, "wide"); sym_assume((c != 0) & ((c < 0xD800) | (c > 0xDFFF))); wd[k++] = c; enc(c); continue; }
      int c; sym_make(&c, 4, "astral"); sym_assume((c >= 0x10000) & (c <= 0x10FFFF)); enc(c); if (f == 1) wd[k++] = c; else { wd[k++] = 0xD800 + (c - 0x10000 >> 10); wd[k++] = 0xDC00 + (c & 0x3FF); } }
    wd[k] = 0; return Input(wd); }
  if (kind == 4) { m = sym_int(0, 3, "bytes"); uint8_t b[4]; if (m) sym_make(b, m, "text"); if (m >= 2) sym_assume(!((b[0] == 0xFE) & (b[1] == 0xFF)) & !((b[0] == 0xFF) & (b[1] == 0xFE))); if (m >= 3) sym_assume(!((b[0] == 0xEF) & (b[1] == 0xBB) & (b[2] == 0xBF))); for (int i = 0; i < m; ++i) enc(b[i]); return Input(sym_file(b, m), FE::latin); }
  if (kind == 5) { m = sym_int(0, 3, "chars"); uint8_t b[8]; int k = 0; b[k++] = 0xFF; b[k++] = 0xFE; for (int i = 0; i < m; ++i) { uint16_t c; sym_make(&c, 2, "unit"); sym_assume((c < 0xD800) | (c > 0xDFFF)); if (i == 0) sym_assume(c != 0); b[k++] = c; b[k++] = c >> 8; enc(c); } return Input(sym_file(b, k)); }
  memset(d, 'x', BIG); d[5] = '\r'; d[6] = '\n'; nd = BIG - sym_int(0, 2, "before the boundary"); m = sym_int(0, 3, "bytes at the boundary"); if (m) sym_make(d + nd, m, "text"); nd += m; if (kind == 7) return Input((const char*)d, nd); return Input(sym_file(d, nd)); }
static void expect(bool dos) { nw = 0; for (int i = 0; i < nd; ++i) { if (dos && i + 1 < nd && d[i] == '\r' && d[i + 1] == '\n') continue; want[nw++] = d[i]; } }
static int at; 
static void one(int c, const char *what) { if (c == -1) { sym_assert(at == nw, "end of file is reported only at the end"); return; } sym_assert(at < nw, "nothing is delivered after the last byte"); sym_assert(c == want[at], what); sym_out(c); }
static void readsb(std::streambuf &sb) {
  if (nd > 1000) { static char big[BIG]; int skip = BIG - 8; std::streamsize k = sb.sgetn(big, skip); sym_assert(k == skip, "sgetn() delivers what is requested"); int bad = 0; for (int i = 0; i < skip; i += 97) bad |= (uint8_t)big[i] != want[i]; sym_assert(!bad && (uint8_t)big[5] == want[5] && (uint8_t)big[6] == want[6], "bytes delivered by sgetn()"); at += skip; }
  for (int o = 0; o < OPS; ++o) { int op = sym_int(0, 6, "operation");
    if (op == 0) one(sb.sgetc(), "sgetc()"); else if (op == 1) { int c = sb.sbumpc(); one(c, "sbumpc()"); if (c != -1) ++at; } else if (op == 2) { int c = sb.snextc(); if (at < nw) ++at; one(c, "snextc()"); }
    else if (op == 6) { std::streamsize a = sb.in_avail(); if (a == -1) sym_assert(at == nw, "in_avail() is -1 only at the end"); else { sym_assert(a >= 0 && a <= nw - at, "in_avail() characters are available"); } sym_out(a); }
    else { int n = op - 3; if (n == 0 ) n = sym_int(0, 1, "request") ? nw + 3 : 0; else n = n == 1 ? 1 : 3; if (n > 64) n = 64; char *p = new char[n + 1]; std::streamsize k = sb.sgetn(p, n); sym_assert(k == (n < nw - at ? n : nw - at), "sgetn() delivers what is requested, up to the end"); for (int i = 0; i < k && at < nw; ++i, ++at) { sym_out(p[i]); sym_assert((uint8_t)p[i] == want[at], "bytes delivered by sgetn()"); } delete[] p; } }
  for (int i = 0; i < 64; ++i) { int c = sb.sbumpc(); one(c, "sbumpc()"); if (c == -1) break; ++at; } sym_assert(at == nw, "all bytes are delivered"); sym_assert(sb.sgetc() == -1 && sb.sbumpc() == -1, "the end is final"); char e[2]; sym_assert(sb.sgetn(e, 2) == 0, "nothing after the end"); }
static void readin(BufferedInput &in) {
  if (nd > 1000) { static char big[BIG]; int skip = BIG - 8; size_t k = in.get(big, skip); sym_assert(k == (size_t)skip, "get() delivers what is requested"); int bad = 0; for (int i = 0; i < skip; i += 97) bad |= (uint8_t)big[i] != want[i]; sym_assert(!bad, "bytes delivered by get()"); at += skip; }
  for (int o = 0; o < OPS; ++o) { int op = sym_int(0, 6, "operation"); size_t left = nw - at;
    if (op == 0) one(in.peek(), "peek()"); else if (op == 1) { int c = in.get(); one(c, "get()"); if (c != -1) ++at; }
    else if (op == 2) { size_t z = in.size(); sym_assert(z == left, "size() is the number of bytes left"); }
    else if (op == 3) { if (in.eof()) sym_assert(left == 0, "eof() only at the end"); if (!in.good()) sym_assert(left == 0, "good() unless at the end"); }
    else if (op == 4) { BufferedInput c(in); int n = 0; for (; n < 64; ++n) { int x = c.get(); one(x, "get() from a copy"); if (x == -1) break; ++at; } sym_assert(at == nw, "all bytes are delivered by a copy"); return; }
    else { int n = op == 5 ? 1 : 3; char *p = new char[n + 1]; size_t k = in.get(p, n); sym_assert(k == ((size_t)n < left ? (size_t)n : left), "get() delivers what is requested, up to the end"); for (size_t i = 0; i < k && at < nw; ++i, ++at) sym_assert((uint8_t)p[i] == want[at], "bytes delivered by get()"); delete[] p; } }
  for (int i = 0; i < 64; ++i) { int c = in.get(); one(c, "get()"); if (c == -1) break; ++at; } sym_assert(at == nw, "all bytes are delivered"); sym_assert(in.peek() == -1 && in.get() == -1, "the end is final"); }
extern "C" int harness_jobs() { return 9 * 8; }
extern "C" void harness(int job) { int kind = job % 9, ad = job / 9; at = 0;
  Input in = source(kind); expect(ad == 1 || ad == 3 || ad == 5);
  switch (ad) {
    case 0: { Input::streambuf sb(in); readsb(sb); break; }
    case 1: { Input::dos_streambuf sb(in); readsb(sb); break; }
    case 2: { BufferedInput::streambuf sb(in); readsb(sb); break; }
    case 3: { BufferedInput::dos_streambuf sb(in); readsb(sb); break; }
    case 4: { BufferedInput bi(in); if (nd && nd < 1000 && sym_int(0, 1, "one byte read before")) { int c = bi.get(); one(c, "get()"); ++at; } BufferedInput::streambuf sb(bi); readsb(sb); break; }
    case 5: { if (nd > 1000) return; BufferedInput bi; bi = in; BufferedInput::dos_streambuf sb(bi); readsb(sb); break; }
    case 6: { BufferedInput bi(in); readin(bi); break; }
    case 7: { BufferedInput bi, b2; bi = in; b2 = bi; readin(b2); break; } } }
