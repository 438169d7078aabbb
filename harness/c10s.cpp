// setop.h: operations on ordered sets with arbitrary elements.
#include "sym.h"
#include <reflex/setop.h>
#include <set>
typedef uint8_t B; typedef std::set<int> S; enum { MAXV = 7 };
static uint32_t mem(const S &s) { uint32_t m = 0; for (S::const_iterator i = s.begin(); i != s.end(); ++i) m |= 1u << *i; return m; }
static void fill(S &s, uint8_t *v, int n) { if (n) sym_make(v, n, "elem"); for (int i = 0; i < n; ++i) { sym_assume(v[i] <= MAXV); if (i) sym_assume(v[i - 1] < v[i]); s.insert(s.end(), v[i]); } }
extern "C" int harness_jobs() { return 6 * 16; }
extern "C" void harness(int job) { S a, b; uint8_t va[4], vb[4]; int na = job / 6 % 4, nb = job / 24; fill(a, va, na); fill(b, vb, nb); uint32_t ma = mem(a), mb = mem(b);
  switch (job % 6) {
    case 0: sym_assert(reflex::is_disjoint(a, b) == ((ma & mb) == 0), "is_disjoint()"); sym_assert(reflex::is_subset(a, b) == ((ma & ~mb) == 0), "is_subset()"); break;
    case 1: { uint8_t x; sym_make(&x, 1, "x"); sym_assume(x <= MAXV); sym_assert(reflex::is_in_set((int)x, a) == ((ma >> x & 1) != 0), "is_in_set()"); break; }
    case 2: { S c = a; reflex::set_insert(c, b); sym_assert(mem(c) == (ma | mb), "set_insert() is union"); break; }
    case 3: { S c = a; reflex::set_delete(c, b); sym_assert(mem(c) == (ma & ~mb), "set_delete() is difference"); break; }
    case 4: { reflex::lazy_intersection<S, S> I(a, b); uint32_t m = 0; int k = 0, last = -1; B ok = 1; for (reflex::lazy_intersection<S, S>::iterator i = I.begin(); i != I.end() && k <= 8; ++i, ++k) { int v = *i; ok &= (v >= 0) & (v <= MAXV) & (last < v); m |= 1u << (v & 31); last = v; } sym_assert(ok & (m == (ma & mb)), "lazy_intersection enumerates the intersection once in order"); break; }
    default: { reflex::lazy_union<S, S> U(a, b); uint32_t m = 0; int k = 0, last = -1; B ok = 1; for (reflex::lazy_union<S, S>::iterator i = U.begin(); i != U.end() && k <= 8; ++i, ++k) { int v = *i; ok &= (v >= 0) & (v <= MAXV) & (last < v); m |= 1u << (v & 31); last = v; } sym_assert(ok & (m == (ma | mb)), "lazy_union enumerates the union once in order"); } }
  sym_assert(mem(b) == mb, "operand unchanged"); if (job % 6 != 3) sym_assert(mem(a) == ma, "operand unchanged"); sym_out(ma); sym_out(mb); }
