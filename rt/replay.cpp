// Native counterpart of the harness API: replays one recorded path against the natively compiled code.
#include "sym.h"
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <unistd.h>
// the bookkeeping below bypasses operator new, which is instrumented: it must not appear among the allocations of the program
template<class T> struct MA { typedef T value_type; MA() { } template<class U> MA(const MA<U>&) { } T *allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); } template<class U> bool operator==(const MA<U>&) const { return true; } template<class U> bool operator!=(const MA<U>&) const { return false; } };
struct RIn { std::string name; bool bytes; std::vector<unsigned char> b; long v; };
static std::vector<RIn> *ins; static size_t pos; static bool frozen; struct Snap { char *p; size_t n; std::vector<char, MA<char> > d; }; typedef std::vector<Snap, MA<Snap> > Snaps; static Snaps *snaps; typedef std::vector<std::pair<const char*, size_t>, MA<std::pair<const char*, size_t> > > Thawed; static Thawed *thawed;
static void die(const char *what, const char *msg) { fflush(stdout); printf("REPLAY-%s %s\n", what, msg); fflush(stdout); _exit(1); }
extern "C" {
static RIn &nextIn(const char *name) { if (pos >= ins->size()) { printf("REPLAY-MISMATCH no input for %s\n", name); fflush(stdout); _exit(78); } RIn &r = (*ins)[pos++]; if (r.name != name) { printf("REPLAY-MISMATCH %s vs %s\n", r.name.c_str(), name); fflush(stdout); _exit(78); } return r; }
void sym_make(void *p, size_t n, const char *name) { if (!n) return; RIn &r = nextIn(name); if (r.b.size() != n) { printf("REPLAY-MISMATCH size of %s\n", name); fflush(stdout); _exit(78); } memcpy(p, r.b.data(), n); }
int sym_int(int, int, const char *name) { return (int)nextIn(name).v; }
int sym_sat(int, const char *name) { return (int)nextIn(name).v; }
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(77); } }
void sym_assert(int c, const char *msg) { if (!c) die("VIOLATION", msg); }
void sym_fail(const char *msg) { die("VIOLATION", msg); }
void sym_known(int c, const char *id) { if (c) { printf("REPLAY-KNOWN %s\n", id); fflush(stdout); _exit(3); } }
void sym_cover(const char *) { }
void sym_out(uint64_t v) { printf("OUT %llx\n", (unsigned long long)v); }
static void checkFrozen();
void sym_stop() { checkFrozen(); printf("REPLAY-END\n"); fflush(stdout); _exit(0); }
void sym_note(const char *s) { printf("NOTE %s\n", s); }
uint64_t sym_conc(uint64_t v) { return v; }
extern char __data_start, _end;
#ifdef REPLAY_HEAP
// plain build: record live allocations to compare frozen memory
}
#include <malloc.h>
#include <new>
struct Rec { Rec *next; void *p; size_t n; }; static Rec *recs[1 << 18]; static Rec **slot(const void *p) { return &recs[((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 46]; }
static void note(void *p, size_t n) { Rec *r = (Rec*)malloc(sizeof(Rec)); r->p = p; r->n = n; Rec **h = slot(p); r->next = *h; *h = r; }
static void unnote(void *p) { for (Rec **r = slot(p); *r; r = &(*r)->next) if ((*r)->p == p) { if (frozen) for (size_t i = 0; i < snaps->size(); ++i) if ((*snaps)[i].p == p) die("VIOLATION", "shared data freed"); Rec *x = *r; *r = x->next; free(x); return; } }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); note(p, n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); note(p, n); return p; }
void operator delete(void *p) noexcept { if (p) unnote(p); free(p); }
void operator delete[](void *p) noexcept { if (p) unnote(p); free(p); }
void operator delete(void *p, size_t) noexcept { if (p) unnote(p); free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) unnote(p); free(p); }
extern "C" {
void sym_freeze() { snaps->clear(); for (size_t h = 0; h < sizeof(recs) / sizeof(*recs); ++h) for (Rec *r = recs[h]; r; r = r->next) { Snap s; s.p = (char*)r->p; s.n = r->n; snaps->push_back(s); }
  for (size_t i = 0; i < snaps->size(); ++i) { Snap &s = (*snaps)[i]; s.d.assign(s.p, s.p + s.n); } frozen = true; }
static void checkFrozen() { if (!frozen) return; frozen = false; for (size_t i = 0; i < snaps->size(); ++i) { Snap &s = (*snaps)[i]; bool live = false; for (Rec *r = *slot(s.p); r; r = r->next) if (r->p == s.p) live = true; if (!live) die("VIOLATION", "shared data freed");
    for (size_t k = 0; k < s.n; ++k) if (s.p[k] != s.d[k]) { bool ok = false; for (size_t t = 0; t < thawed->size(); ++t) if (s.p + k >= (*thawed)[t].first && s.p + k < (*thawed)[t].first + (*thawed)[t].second) ok = true; if (!ok) die("VIOLATION", "shared data modified"); } } }
#else
void sym_freeze() { }
static void checkFrozen() { }
#endif
void sym_unfreeze() { checkFrozen(); thawed->clear(); }
void sym_thaw(const void *p, size_t n) { thawed->push_back(std::make_pair((const char*)p, n)); }
int sym_readable(const void *, size_t) { return 1; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_log(const char *s, uint64_t v) { fprintf(stderr, "LOG %s %lld\n", s, (long long)v); }
int sym_is_symbolic() { return 0; }
FILE *sym_file(const void *data, size_t n) { FILE *f = tmpfile(); if (n) fwrite(data, 1, n, f); rewind(f); return f; }
}
int main(int argc, char **argv) {
  ins = new std::vector<RIn>; static Snaps sn; snaps = &sn; static Thawed th; thawed = &th;
  if (argc < 3) return 2; int job = atoi(argv[1]); FILE *f = fopen(argv[2], "r"); if (!f) return 2;
  char *line = 0; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { if (line[n-1] == '\n') line[--n] = 0; if (!n || !strncmp(line, "OUT ", 4)) continue; char *sp = strrchr(line, ' '); if (!sp) continue; RIn r; r.name.assign(line, sp - line); const char *v = sp + 1; r.v = 0; r.bytes = *v == 'x';
    if (r.bytes) for (++v; v[0] && v[1]; v += 2) { char t[3] = { v[0], v[1], 0 }; r.b.push_back((unsigned char)strtol(t, 0, 16)); } else r.v = atol(v); ins->push_back(r); }
  free(line); fclose(f);
  harness(job);
  checkFrozen();
  printf("REPLAY-END\n"); fflush(stdout); _exit(0);
}
