// Ranges<int>, ORanges<int>: set algebra over arbitrary small ranges, element by element.
#include "sym.h"
#include <reflex/ranges.h>
#ifndef MAXV
#define MAXV 6
#endif
#ifndef NA
#define NA 3
#endif
#ifndef NB
#define NB 3
#endif
typedef uint8_t B; typedef uint32_t M; // bit v: v is a member
static uint8_t rnd[64]; static int rn;
static int val(const char *nm) { uint8_t *p = &rnd[rn++]; sym_make(p, 1, nm); sym_assume(*p <= MAXV); return *p; }
// closed ranges: values are even, members are tested at odd points too (dense semantics); ordinal ranges: plain integers
template<class S> struct Tr; 
template<> struct Tr<reflex::Ranges<int> > { enum { K = 2 }; static int hi(int h) { return h; } };
template<> struct Tr<reflex::ORanges<int> > { enum { K = 1 }; static int hi(int h) { return h - 1; } };
template<class S> static M mask(int lo, int hi) { M m = 0; for (int v = 0; v <= MAXV * Tr<S>::K + 1; ++v) m |= (M)((lo <= v) & (v <= hi)) << v; return m; }
template<class S> static M members(const S &s) { M m = 0; for (typename S::const_iterator i = s.begin(); i != s.end(); ++i) m |= mask<S>(i->first, Tr<S>::hi(i->second)); return m; }
template<class S> static void wf(const S &s) { bool f = true; int last = 0; size_t n = 0; B ok = 1; for (typename S::const_iterator i = s.begin(); i != s.end(); ++i) { ok &= i->first <= Tr<S>::hi(i->second); if (!f) ok &= last < i->first; last = i->second; f = false; ++n; }
  sym_assert(ok, "stored ranges are non-empty, sorted and disjoint"); sym_assert((n == s.size()) & (s.any() == (n > 0)) & (s.empty() == (n == 0)), "size and any agree with iteration"); }
template<class S> static M fill(S &s, int n, M m) { const int K = Tr<S>::K; for (int i = 0; i < n; ++i) { int lo = val("lo") * K, hi = val("hi") * K; sym_assume(lo <= hi); M r = mask<S>(lo, hi); 
    std::pair<typename S::iterator, bool> q = lo == hi ? s.insert(lo) : s.insert(lo, hi); sym_assert((B)(q.second == ((m & r) != r)) & (B)(q.first->first <= lo) & (B)(hi <= Tr<S>::hi(q.first->second)), "insert() tells whether the set grew and returns the range that contains the inserted one"); m |= r; } return m; }
template<class S> static M sorted(S &s, int n) { M m = 0; const int K = Tr<S>::K; int last = -2; for (int i = 0; i < n; ++i) { int lo = val("lo") * K, hi = val("hi") * K; sym_assume((lo <= hi) & (last + (K == 1) < lo)); s.insert(lo, hi); m |= mask<S>(lo, hi); last = hi; } return m; }
template<class S> static void queries(const S &a, M ma) { const int K = Tr<S>::K; int v = val("v") * K; bool in = ma >> v & 1; sym_assert((a.find(v) != a.end()) == in, "find(v) is membership"); if (in) { typename S::const_iterator i = a.find(v); sym_assert(mask<S>(i->first, Tr<S>::hi(i->second)) >> v & 1, "find(v) returns the containing range"); }
  int lo = val("lo") * K, hi = val("hi") * K; sym_assume(lo <= hi); M r = mask<S>(lo, hi); typename S::const_iterator i = a.find(lo, hi); sym_assert((i != a.end()) == ((ma & r) != 0), "find(lo,hi) finds an overlapping range");
  if (i != a.end()) { M fst = mask<S>(i->first, Tr<S>::hi(i->second)); sym_assert((fst & r) != 0, "find(lo,hi) returns an overlapping range"); }
  if (a.any()) { sym_assert((ma >> a.lo() & 1) && (ma & ((1u << a.lo()) - 1)) == 0, "lo() is the least member"); sym_assert((ma >> a.hi() & 1) && (ma >> a.hi() >> 1) == 0, "hi() is the greatest member"); } }
template<class S> static void binary(int op, int na, int nb) { S a, b; M ma = sorted(a, na), mb = op == 6 ? 0 : sorted(b, nb);
  switch (op) {
    case 0: { S c = a; c |= b; wf(c); sym_assert(members(c) == (ma | mb), "operator|= is union"); break; }
    case 1: { S c = a; c += b; wf(c); sym_assert(members(c) == (ma | mb), "operator+= is union"); S d = a | b, e = a + b; wf(d); sym_assert((members(d) == (ma | mb)) & (members(e) == (ma | mb)), "operator| and operator+ are union"); break; }
    case 2: { S c = a; c &= b; wf(c); sym_assert(members(c) == (ma & mb), "operator&= is intersection"); break; }
    case 3: { S d = a & b; wf(d); sym_assert(members(d) == (ma & mb), "operator& is intersection"); break; }
    case 4: sym_assert(a.intersects(b) == ((ma & mb) != 0), "intersects()"); sym_assert(a.contains(b) == ((ma & mb) == mb), "contains() is superset"); break;
    case 5: { bool lt = a < b, gt = a > b; sym_assert(gt == (b < a) && (a <= b) == !gt && (a >= b) == !lt, "comparison operators agree"); sym_assert(!(lt && gt), "comparison is asymmetric"); sym_assert(!(a < a), "comparison is irreflexive");
      // lexicographic over the sequence of (lo,hi) pairs
      typename S::const_iterator i = a.begin(), j = b.begin(); int r = 0; while (r == 0 && i != a.end() && j != b.end()) { r = i->first < j->first ? -1 : j->first < i->first ? 1 : i->second < j->second ? -1 : j->second < i->second ? 1 : 0; ++i; ++j; } if (r == 0) r = i == a.end() ? (j == b.end() ? 0 : -1) : 1; sym_assert(lt == (r < 0), "operator< is lexicographic"); break; }
    default: if (nb == 0) queries(a, ma); else if (nb == 1) ma = fill(a, 1, ma); else { S c = a; c |= c; wf(c); sym_assert(members(c) == ma, "a |= a"); c &= c; wf(c); sym_assert(members(c) == ma, "a &= a"); S d; d |= a; wf(d); sym_assert(members(d) == ma, "{} |= a"); d = a; d &= S(); sym_assert(!d.any(), "a &= {}"); } }
  if (op != 6) wf(b); wf(a); sym_assert((members(a) == ma) & (members(b) == mb), "operands are unchanged and represent what was inserted"); sym_out(ma); sym_out(mb); }
static void ordinal(int op, int na, int nb) { typedef reflex::ORanges<int> S; S a, b; M ma = sorted(a, na), mb = op == 1 ? 0 : sorted(b, nb);
  switch (op) { case 0: { if (nb == 1) { S e = a; e -= e; sym_assert(!e.any(), "a -= a"); } S c = a; c -= b; wf(c); sym_assert(members(c) == (ma & ~mb), "operator-= is difference"); S d = a - b; sym_assert(members(d) == (ma & ~mb), "operator- is difference"); break; }
    default: { int lo = val("lo"), hi = val("hi"); sym_assume(lo <= hi); M r = mask<S>(lo, hi); S c = a; bool f = lo == hi ? c.erase(lo) : c.erase(lo, hi); wf(c); sym_assert(f == ((ma & r) != 0), "erase() tells whether the set shrank"); sym_assert(members(c) == (ma & ~r), "erase() removes exactly the range"); break; } }
  sym_assert(members(a) == ma && members(b) == mb, "operands are unchanged"); sym_out(ma); }
extern "C" int harness_jobs() { return 16 * NA * NB; }
extern "C" void harness(int j) { rn = 0; int job = j % 16, na = j / 16 % NA + 1, nb = j / 16 / NA; if (job < 7) { binary<reflex::Ranges<int> >(job, na, nb); } else if (job < 14) { binary<reflex::ORanges<int> >(job - 7, na, nb); } else { if (job == 15 && nb) return; ordinal(job - 14, na, nb); } }
