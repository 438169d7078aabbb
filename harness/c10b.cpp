// Bits: set algebra on bit vectors of up to 4 words with arbitrary content.
#include "sym.h"
#include <reflex/bits.h>
#include <algorithm>
typedef uint8_t B; typedef uint64_t W; using reflex::Bits;
enum { NW = 8 };
struct Model { W w[NW]; Model() { for (int i = 0; i < NW; ++i) w[i] = 0; } };
static void same(const Bits &b, const Model &m, const char *msg) { B ok = 1; for (int i = 0; i < NW; ++i) { W x = 0; if ((size_t)i * 64 < b.size()) x = *const_cast<Bits&>(b)[(size_t)i * 64].p; ok &= x == m.w[i]; } sym_assert(ok, msg); sym_assert(b.size() <= NW * 64, "size"); for (size_t i = 0; i < b.size() && i < NW * 64; i += 64) sym_out(*const_cast<Bits&>(b)[i].p); }
static void fill(Bits &b, Model &m, int n) { b.reserve(64 * n); for (int i = 0; i < n; ++i) { W *p = b[64 * i].p; W x; sym_make(&x, 8, "word"); *p = x; m.w[i] = x; } }
static const int pts[] = { 0, 1, 31, 62, 63, 64, 65, 126, 127, 128, 130, 191, 192, 255, 256, 300 };
static size_t pt() { return pts[sym_int(0, 15, "point")]; }
static void sparse(Bits &b, Model &m, int n) { static const int at[] = { 0, 5, 63, 64, 100, 127, 128, 191 }; uint8_t x[8]; sym_make(x, n, "bits"); b.reserve(192); for (int i = 0; i < n; ++i) { sym_assume(x[i] <= 1); *b[at[i] & ~63].p |= (W)x[i] << (at[i] & 63); m.w[at[i] >> 6] |= (W)x[i] << (at[i] & 63); } }
static B bit(const Model &m, int i) { return m.w[i >> 6] >> (i & 63) & 1; }
extern "C" int harness_jobs() { return 30; }
extern "C" void harness(int job) { Bits a, b; Model x, y, z; int op = job; 
  if (op < 6) { int na = sym_int(0, 4, "words"), nb = sym_int(0, 4, "words"); fill(a, x, na); fill(b, y, nb); }
  switch (op) {
    case 0: { Bits c = a | b; for (int i = 0; i < NW; ++i) z.w[i] = x.w[i] | y.w[i]; same(c, z, "operator| is union"); c = a; c |= b; same(c, z, "operator|="); break; }
    case 1: { Bits c = a & b; for (int i = 0; i < NW; ++i) z.w[i] = x.w[i] & y.w[i]; same(c, z, "operator& is intersection"); c = a; c &= b; same(c, z, "operator&="); break; }
    case 2: { Bits c = a ^ b; for (int i = 0; i < NW; ++i) z.w[i] = x.w[i] ^ y.w[i]; same(c, z, "operator^ is symmetric difference"); c = a; c ^= b; same(c, z, "operator^="); break; }
    case 3: { Bits c = a - b; for (int i = 0; i < NW; ++i) z.w[i] = x.w[i] & ~y.w[i]; same(c, z, "operator- is difference"); c = a; c -= b; same(c, z, "operator-="); break; }
    case 4: { B it = 0, ct = 1, eq = 1; for (int i = 0; i < NW; ++i) { it |= (x.w[i] & y.w[i]) != 0; ct &= (y.w[i] & ~x.w[i]) == 0; eq &= x.w[i] == y.w[i]; } sym_assert(a.intersects(b) == it, "intersects()"); sym_assert(a.contains(b) == ct, "contains() is superset"); sym_assert((a == b) == eq, "operator=="); sym_assert((a != b) == (eq ^ 1), "operator!="); break; }
    case 5: { B eq = 1; for (int i = 0; i < NW; ++i) eq &= x.w[i] == y.w[i]; bool lt = a < b, gt = a > b; sym_assert(!(lt & gt), "operator< is asymmetric"); sym_assert((!lt & !gt) == eq, "exactly one of <, ==, > holds"); sym_assert((a <= b) == !gt, "operator<="); sym_assert((a >= b) == !lt, "operator>="); break; }
    case 6: { int n = sym_int(0, 4, "words"); fill(a, x, n); Bits c = ~a; B all = 1; for (int i = 0; i < NW; ++i) { z.w[i] = (size_t)i * 64 < a.size() ? ~x.w[i] : 0; if ((size_t)i * 64 < a.size()) all &= x.w[i] == ~0ULL; } same(c, z, "operator~ flips every bit"); c = a; c.flip(); same(c, z, "flip() flips every bit"); sym_assert(a.all() == all, "all()"); B any = 0; for (int i = 0; i < NW; ++i) any |= x.w[i] != 0; sym_assert(a.any() == any, "any()"); c.clear(); sym_assert(!c.any() && c.count() == 0 && c.find_first() == Bits::npos, "clear()"); break; }
    case 7: { int n = sym_int(0, 4, "words"); fill(a, x, n); Bits c = a; c.lshift(); for (int i = NW - 1; i >= 0; --i) z.w[i] = x.w[i] << 1 | (i ? x.w[i - 1] >> 63 : 0); same(c, z, "lshift() moves every bit up by one"); c.rshift(); same(c, x, "rshift() undoes lshift()"); break; }
    case 8: { int n = sym_int(0, 4, "words"); fill(a, x, n); a.rshift(); for (int i = 0; i < NW; ++i) z.w[i] = x.w[i] >> 1 | (i + 1 < NW ? x.w[i + 1] << 63 : 0); same(a, z, "rshift() moves every bit down by one"); x = z; break; }
    case 9: case 10: case 11: { int n = sym_int(0, 3, "words"); fill(a, x, n); size_t p = pt(), q = pt(); if (p > q) std::swap(p, q); for (size_t i = p; i <= q; ++i) { W k = 1ULL << (i & 63); W &w = x.w[i >> 6]; if (op == 9) w |= k; else if (op == 10) w &= ~k; else w ^= k; }
      if (op == 9) a.insert(p, q); else if (op == 10) a.erase(p, q); else a.flip(p, q); same(a, x, op == 9 ? "insert(n1,n2)" : op == 10 ? "erase(n1,n2)" : "flip(n1,n2)"); Bits e(p, q); sym_assert(e.count() == q - p + 1 && e.find_first() == p, "Bits(n1,n2)"); break; }
    case 12: case 13: case 14: case 15: { int n = sym_int(0, 3, "words"); fill(a, x, n); size_t p = pt(); W k = 1ULL << (p & 63); sym_assert(const_cast<const Bits&>(a)[p] == bit(x, p), "operator[] is membership"); W &w = x.w[p >> 6]; if (op == 12) { a.insert(p); w |= k; } else if (op == 13) { a.erase(p); w &= ~k; } else if (op == 14) { a.flip(p); w ^= k; } else { uint8_t v; sym_make(&v, 1, "value"); sym_assume(v <= 1); a[p] = v != 0; w = v ? w | k : w & ~k; } same(a, x, "single-bit update"); sym_assert(a[p] == bit(x, p), "operator[] after update"); Bits e(p); sym_assert(e.count() == 1 && e.find_first() == p, "Bits(n)"); break; }
    case 16: case 17: case 18: { fill(a, x, 2); size_t p = pt(); uint8_t v; sym_make(&v, 1, "value"); sym_assume(v <= 1); B o = bit(x, p), r; if (op == 16) r = a[p] |= (v != 0); else if (op == 17) r = a[p] &= (v != 0); else r = a[p] ^= (v != 0); B e = op == 16 ? o | v : op == 17 ? o & v : o ^ v; sym_assert(r == e, "bit reference update result"); W &w = x.w[p >> 6]; w = (w & ~(1ULL << (p & 63))) | (W)e << (p & 63); same(a, x, "bit reference update"); break; }
    case 19: { sparse(a, x, 7); size_t c = 0; for (int i = 0; i < 192; ++i) c += bit(x, i); sym_assert(a.count() == c, "count() is the number of members"); break; }
    case 20: { sparse(a, x, 7); size_t n = pt(); size_t r = n == 0 ? a.find_first() : a.find_next(n - 1); B ok = 1; for (size_t i = n; i < 192; ++i) ok &= i >= r ? 1 : bit(x, i) ^ 1; sym_assert(ok && (r == Bits::npos || (r >= n && r < 192 && bit(x, r))), "find_first()/find_next() return the least member from there"); break; }
    case 21: { int n = sym_int(0, 3, "words"); fill(a, x, n); fill(b, y, 1); Bits c(a); c.insert(7).erase(9).flip(70); same(a, x, "a copy does not share storage"); b = a; same(b, x, "assignment copies"); Bits &s = b; b = s; same(b, x, "self-assignment keeps the value"); b |= b; same(b, x, "a |= a"); b &= b; same(b, x, "a &= a"); b -= b; sym_assert(!b.any(), "a -= a is empty"); break; }
    case 22: { fill(a, x, 2); fill(b, y, 1); a.swap(b); same(a, y, "swap()"); same(b, x, "swap()"); Bits e; e.swap(a); same(e, y, "swap() with empty"); sym_assert(!a.any() && a.size() == 0, "swap() with empty"); x = Model(); break; }
    case 23: { fill(a, x, 3); size_t p = pt(), q = pt(); if (p >= a.size() || q >= a.size()) break; a[p] = a[q]; W &w = x.w[p >> 6]; W k = 1ULL << (p & 63); w = bit(x, q) ? w | k : w & ~k; same(a, x, "a[i] = a[j] assigns the bit"); break; }
    default: { // sequences: three arbitrary operations on an initially empty set
      size_t u = 0; for (int k = 0; k < 3; ++k) { int o = sym_int(0, 5, "op"); size_t p = pts[1 + job % 6 + k * 4]; W q = 1ULL << (p & 63); switch (o) { case 0: a.insert(p); x.w[p >> 6] |= q; break; case 1: a.erase(p); x.w[p >> 6] &= ~q; break; case 2: a.flip(p); x.w[p >> 6] ^= q; break; case 3: a.reserve(p); break; case 4: a.lshift(); for (int i = NW - 1; i >= 0; --i) x.w[i] = x.w[i] << 1 | (i ? x.w[i - 1] >> 63 : 0); break; default: a.rshift(); for (int i = 0; i < NW; ++i) x.w[i] = x.w[i] >> 1 | (i + 1 < NW ? x.w[i + 1] << 63 : 0); } } same(a, x, "operation sequence"); } }
  if (op < 6) { same(a, x, "operands are unchanged"); same(b, y, "operands are unchanged"); } }
