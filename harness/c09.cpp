// Input: every file encoding, selected or announced by a BOM, arbitrary content, arbitrary read sizes.
#include "sym.h"
#include <reflex/input.h>
#include <string>
#include <string.h>
typedef uint8_t B; using namespace reflex;
#define IT(c, a, b) ((int)sym_ite((c), (uint32_t)(a), (uint32_t)(b)))
enum { MX = 24 };
// expected output as byte terms; appended per character
struct Out { uint8_t b[MX * 2]; int n; Out() : n(0) { } // n is concrete: callers fork on the encoded length first
  void ch(int c) { if (c < 0x80) b[n++] = c; else if (c < 0x800) { b[n++] = 0xC0 | c >> 6; b[n++] = 0x80 | (c & 63); } else if (c < 0x10000) { b[n++] = 0xE0 | c >> 12; b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } else { b[n++] = 0xF0 | c >> 18; b[n++] = 0x80 | (c >> 12 & 63); b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } } };
static void drain(Input &in, const Out &o, bool first1 = false) { // arbitrary sequence of read sizes, then everything must have arrived exactly once
  uint8_t got[MX * 2 + 16]; int n = 0; static int steps[4]; for (int i = 0; i < 2; ++i) steps[i] = sym_int(1, 5, "request"); steps[2] = 16; steps[3] = 16;
  size_t sz = in.size(); sym_assert(sz == (size_t)o.n, "size() is the number of bytes that will be delivered");
  for (int k = 0; k < 40; ++k) { char *p = new char[16]; int want = steps[k < 3 ? k : 3]; size_t r = in.get(p, want); sym_assert(r <= (size_t)want, "get() delivers at most the requested number of bytes"); if (!r) break; for (size_t i = 0; i < r && n < MX * 2 + 16; ++i) got[n++] = p[i]; if (n <= o.n) sym_assert(in.size() == (size_t)(o.n - n), "size() is the number of bytes left"); if (n < o.n) sym_assert(in.good() && !in.eof(), "eof() is false while bytes are left"); if (k == 39) sym_fail("input does not end"); }
  sym_assert(n == o.n, "number of delivered bytes"); B ok = 1; for (int i = 0; i < n && i < o.n; ++i) ok &= got[i] == o.b[i]; sym_assert(ok, "delivered bytes are the UTF-8 encoding of the file's characters"); for (int i = 0; i < n; ++i) sym_out(got[i]); sym_assert(in.get() == EOF, "end of file after the last character"); }
static int u16(uint8_t *p, int le) { return le ? p[0] | p[1] << 8 : p[0] << 8 | p[1]; }
// independent tables for single-byte code pages: (byte, code point) samples come from the published mappings
typedef struct Input::file_encoding FE; typedef Input::file_encoding_type file_encoding_type;
static const file_encoding_type pages[] = { FE::cp437, FE::cp850, FE::cp858, FE::ebcdic, FE::cp1250, FE::cp1251, FE::cp1252, FE::cp1253, FE::cp1254, FE::cp1255, FE::cp1256, FE::cp1257, FE::cp1258, FE::iso8859_2, FE::iso8859_3, FE::iso8859_4, FE::iso8859_5, FE::iso8859_6, FE::iso8859_7, FE::iso8859_8, FE::iso8859_9, FE::iso8859_10, FE::iso8859_11, FE::iso8859_13, FE::iso8859_14, FE::iso8859_15, FE::iso8859_16, FE::macroman, FE::koi8_r, FE::koi8_u, FE::koi8_ru };
#include "codepages.inc"
enum { NP = sizeof(pages) / sizeof(*pages) };
static FILE *bytes(const uint8_t *b, int n) { return sym_file(b, n); }
extern "C" int harness_jobs() { return 54; }
extern "C" void harness(int job) { Out o; uint8_t d[MX]; int n = 0;
  if (job < 8) { // UTF-16 with BOM (0..3) or selected (4..7): n characters from the BMP or a pair
    int le = job & 1, bom = job < 4, pair = job >> 1 & 1; if (bom) { d[n++] = le ? 0xFF : 0xFE; d[n++] = le ? 0xFE : 0xFF; }
    int m = sym_int(0, pair ? 2 : 3, "characters"); int base = n; if (m) sym_make(d + n, m * 2, "units"); n += m * 2;
    for (int i = 0; i < m; ++i) { int c = u16(d + base + 2 * i, le); if (!bom && i == 0) sym_assume((c != 0xFEFF) & (c != 0xFFFE)); if (bom && i == 0) sym_assume(c != 0); 
      if (pair) { if (i == 0) sym_assume((c >= 0xD800) & (c < 0xDC00)); else { sym_assume((c >= 0xDC00) & (c < 0xE000)); int h = u16(d + base, le); o.ch(0x10000 + ((h & 0x3FF) << 10 | (c & 0x3FF))); } } else { sym_assume((c < 0xD800) | (c > 0xDFFF)); o.ch(c); } }
    if (pair) { if (m == 1) return; int c = 'x'; d[n++] = le ? c : 0; d[n++] = le ? 0 : c; o.ch(c); }
    if (!bom && m >= 1) { // not announced: the first bytes must not look like another BOM
      sym_assume(!((d[0] == 0) & (d[1] == 0) & (n > 3 ? (d[2] == 0xFE) & (d[3] == 0xFF) : 0))); sym_assume(!((d[0] == 0xEF) & (d[1] == 0xBB) & (n > 2 ? d[2] == 0xBF : 0))); }
    Input in(bytes(d, n), bom ? FE::plain : le ? FE::utf16le : FE::utf16be); if (bom) sym_assert(in.file_encoding() == (le ? FE::utf16le : FE::utf16be), "the byte order mark selects the encoding"); drain(in, o); return; }
  if (job < 12) { int le = job & 1, bom = job < 10; if (bom) { static const uint8_t B32[2][4] = { { 0, 0, 0xFE, 0xFF }, { 0xFF, 0xFE, 0, 0 } }; memcpy(d, B32[le], 4); n = 4; }
    int m = sym_int(0, 2, "characters"); for (int i = 0; i < m; ++i) { int c; sym_make(&c, 4, "c"); sym_assume((c >= 0) & (c <= 0x10FFFF) & ((c < 0xD800) | (c > 0xDFFF))); if (!bom && i == 0) sym_assume((c != 0xFEFF)); for (int k = 0; k < 4; ++k) d[n++] = le ? c >> 8 * k : c >> 8 * (3 - k); o.ch(c); }
    if (!bom && m) sym_assume(!((d[0] == 0xEF) & (d[1] == 0xBB) & (d[2] == 0xBF)) & !((d[0] == 0xFE) & (d[1] == 0xFF)) & !((d[0] == 0xFF) & (d[1] == 0xFE)));
    Input in(bytes(d, n), bom ? FE::plain : le ? FE::utf32le : FE::utf32be); if (bom) sym_assert(in.file_encoding() == (le ? FE::utf32le : FE::utf32be), "the byte order mark selects the encoding"); drain(in, o); return; }
  if (job < 14) { int le = job & 1; static const uint8_t B32[2][4] = { { 0, 0, 0xFE, 0xFF }, { 0xFF, 0xFE, 0, 0 } }; memcpy(d, B32[le], 4); uint32_t c; sym_make(&c, 4, "bad"); sym_assume(c > 0x10FFFF); for (int k = 0; k < 4; ++k) d[4 + k] = le ? c >> 8 * k : c >> 8 * (3 - k); memcpy(o.b, REFLEX_NONCHAR_UTF8, o.n = sizeof(REFLEX_NONCHAR_UTF8) - 1); Input in(bytes(d, 8)); drain(in, o); return; }
  if (job < 17) { // plain bytes 0..4, any content that is not a BOM; with UTF-8 BOM
    int m = sym_int(0, 5, "bytes"); if (job == 15) { d[0] = 0xEF; d[1] = 0xBB; d[2] = 0xBF; n = 3; } if (m) sym_make(d + n, m, "bytes"); for (int i = 0; i < m; ++i) o.b[o.n++] = d[n + i]; n += m;
    if (job != 15 && m >= 2) sym_assume(!((d[0] == 0xFE) & (d[1] == 0xFF)) & !((d[0] == 0xFF) & (d[1] == 0xFE))); if (job != 15 && m >= 3) sym_assume(!((d[0] == 0xEF) & (d[1] == 0xBB) & (d[2] == 0xBF))); if (job != 15 && m >= 4) sym_assume(!((d[0] == 0) & (d[1] == 0) & (d[2] == 0xFE) & (d[3] == 0xFF)));
    Input in(bytes(d, n), job == 16 ? FE::utf8 : FE::plain); if (job == 15) sym_assert(in.file_encoding() == FE::utf8, "UTF-8 BOM detected"); drain(in, o); return; }
  // single byte encodings: a table maps each byte to its character
  uint16_t tab[256]; file_encoding_type e; const unsigned short *page = 0; int k = job - 17; 
  if (k == 0) { e = FE::latin; for (int c = 0; c < 256; ++c) tab[c] = c; } else if (k == 1) { e = FE::custom; unsigned short *q = new unsigned short[256]; for (int c = 0; c < 256; ++c) q[c] = tab[c] = (c * 73 + 5) % 3000; page = q; } else if (k < 2 + NP) { e = pages[k - 2]; for (int c = 0; c < 256; ++c) tab[c] = ref_pages[k - 2][c]; } else if (k < 2 + NP + 4) { e = FE::cp1252; for (int c = 0; c < 256; ++c) tab[c] = ref_pages[6][c]; } else return;
  int m = sym_int(k >= 2 + NP ? 2 : 0, 3, "bytes"); if (m) sym_make(d, m, "bytes"); if (m >= 2) sym_assume(!((d[0] == 0xFE) & (d[1] == 0xFF)) & !((d[0] == 0xFF) & (d[1] == 0xFE))); if (m >= 3) sym_assume(!((d[0] == 0xEF) & (d[1] == 0xBB) & (d[2] == 0xBF)));
  if (k < 2 + NP) { for (int i = 0; i < m; ++i) { int c = tab[d[i]]; if (c == 0xFFFF) { sym_stop(); return; } o.ch(c); } Input in(bytes(d, m), e, page); sym_assert(in.file_encoding() == e, "selected encoding"); drain(in, o); return; }
  // encoding changed after j bytes were read as Latin-1 (or plain ASCII)
  k -= 2 + NP; Input in(bytes(d, m), k & 1 ? FE::latin : FE::plain); sym_assume(d[0] < 0x80); sym_assume(d[0] != 0); int c0 = in.get(); sym_assert(c0 == d[0], "first byte"); in.file_encoding(k & 2 ? FE::latin : e); for (int i = 1; i < m; ++i) { int c = k & 2 ? d[i] : tab[d[i]]; if (c == 0xFFFF) { sym_stop(); return; } o.ch(c); } drain(in, o); }
