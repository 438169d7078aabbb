// Run-time support compiled to bitcode: C library and libstdc++ out-of-line functions needed by the code under test.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <new>
#include <string>
#include <stdexcept>
#include <map>
#include <list>
#include <exception>
#include <bits/functexcept.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include "sym.h"
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
extern "C" {
int symrt_memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
void *symrt_memchr(const void *a, int c, size_t n) { const unsigned char *p = (const unsigned char*)a; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
size_t symrt_strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int symrt_strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int symrt_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) ++a, ++b, --n; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *symrt_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *symrt_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) ++d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strstr(const char *h, const char *n) { for (;; ++h) { const char *a = h, *b = n; while (*b && *a == *b) ++a, ++b; if (!*b) return (char*)h; if (!*h) return 0; } }
char *strpbrk(const char *s, const char *a) { for (; *s; ++s) for (const char *b = a; *b; ++b) if (*s == *b) return (char*)s; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; ++n) { const char *b = a; while (*b && *b != s[n]) ++b; if (!*b) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; ++n) { const char *b = a; while (*b && *b != s[n]) ++b; if (*b) break; } return n; }
void *memmem_(const void*,size_t,const void*,size_t);
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { if (d <= s) for (size_t i = 0; i < n; ++i) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
// ctype, C locale
// (nonzero results are glibc's mask bits, not 1)
int isupper(int c) { return c >= 'A' && c <= 'Z' ? 256 : 0; }
int islower(int c) { return c >= 'a' && c <= 'z' ? 512 : 0; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') | (c >= 'a' && c <= 'z') ? 1024 : 0; }
int isdigit(int c) { return c >= '0' && c <= '9' ? 2048 : 0; }
int isalnum(int c) { return (c >= 'A' && c <= 'Z') | (c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') ? 8 : 0; }
int isspace(int c) { return (c == ' ') | (c >= 9 && c <= 13) ? 8192 : 0; }
int isxdigit(int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F') ? 4096 : 0; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c) ? 4 : 0; }
int isprint(int c) { return c >= 32 && c < 127 ? 16384 : 0; }
int isgraph(int c) { return c > 32 && c < 127 ? 32768 : 0; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127 ? 2 : 0; }
int isblank(int c) { return c == ' ' || c == '\t' ? 1 : 0; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static unsigned short ctb[384]; static int ctl[384], ctu[384]; static const unsigned short *ctbp; static const int *ctlp, *ctup; static bool ctinit_;
static void ctinit() { if (ctinit_) return; ctinit_ = true; for (int c = 0; c < 256; ++c) { unsigned m = 0; // glibc bits (little endian)
    if (c < 128) { if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isgraph(c)) m |= 1 << 15; if (isblank(c)) m |= 1; if (iscntrl(c)) m |= 2; if (ispunct(c)) m |= 4; if (isalnum(c)) m |= 8; }
    ctb[128 + c] = m; if (c >= 128) ctb[c - 128] = m; ctl[128 + c] = tolower(c); ctu[128 + c] = toupper(c); } ctbp = ctb + 128; ctlp = ctl + 128; ctup = ctu + 128; }
__attribute__((constructor(101))) static void ctinit2() { ctinit(); }
const unsigned short **__ctype_b_loc() { return &ctbp; }
const int **__ctype_tolower_loc() { return &ctlp; }
const int **__ctype_toupper_loc() { return &ctup; }
size_t __ctype_get_mb_cur_max() { return 1; }
static unsigned long strtoul_(const char *s, char **e, int base, bool &neg) { const char *p = s; while (isspace(*p)) ++p; neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; unsigned long v = 0; const char *q = p; for (;;) { int d; if (isdigit(*p)) d = *p - '0'; else if (isalpha(*p)) d = (*p | 32) - 'a' + 10; else break; if (d >= base) break; v = v * base + d; ++p; } if (e) *e = (char*)(p == q ? s : p); return v; }
unsigned long strtoul(const char *s, char **e, int b) { bool n; unsigned long v = strtoul_(s, e, b, n); return n ? -v : v; }
long strtol(const char *s, char **e, int b) { bool n; unsigned long v = strtoul_(s, e, b, n); return n ? -(long)v : (long)v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long plain_strtol(const char *s, char **e, int b) asm("strtol");
long plain_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long plain_strtoul(const char *s, char **e, int b) asm("strtoul");
unsigned long plain_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long plain_strtoull(const char *s, char **e, int b) asm("strtoull");
unsigned long long plain_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long plain_strtoll(const char *s, char **e, int b) asm("strtoll");
long long plain_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  size_t n = 0;
  #define PUT(ch) do { if (n + 1 < cap) buf[n] = (ch); ++n; } while (0)
  for (; *f; ++f) {
    if (*f != '%') { PUT(*f); continue; }
    ++f; bool left = false, zero = false, plus = false, alt = false; for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f != ' ') break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); ++f; } else while (isdigit(*f)) w = w * 10 + *f++ - '0';
    if (*f == '.') { ++f; pr = 0; if (*f == '*') { pr = va_arg(ap, int); ++f; } else while (isdigit(*f)) pr = pr * 10 + *f++ - '0'; }
    int l = 0; while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f == 'l' || *f == 'z' || *f == 'j') ++l; ++f; }
    char t[72]; int k = 0; bool neg = false;
    switch (*f) {
      case '%': PUT('%'); break;
      case 'c': { char c = (char)va_arg(ap, int); for (int i = 1; i < w && !left; ++i) PUT(' '); PUT(c); for (int i = 1; i < w && left; ++i) PUT(' '); break; }
      case 's': { const char *s = va_arg(ap, const char*); if (!s) s = "(null)"; int m = 0; while ((pr < 0 || m < pr) && s[m]) ++m; for (int i = m; i < w && !left; ++i) PUT(' '); for (int i = 0; i < m; ++i) PUT(s[i]); for (int i = m; i < w && left; ++i) PUT(' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v; unsigned b = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'd' || *f == 'i') { long sv = l ? va_arg(ap, long) : va_arg(ap, int); neg = sv < 0; v = neg ? -(unsigned long)sv : sv; } else v = l || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        if (*f == 'p') alt = true;
        do { t[k++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % b]; v /= b; } while (v);
        while (k < pr) t[k++] = '0'; int ex = neg || plus; if (alt && b == 16) ex += 2;
        if (!left && !zero) for (int i = k + ex; i < w; ++i) PUT(' ');
        if (neg) PUT('-'); else if (plus) PUT('+'); if (alt && b == 16) { PUT('0'); PUT('x'); }
        if (!left && zero) for (int i = k + ex; i < w; ++i) PUT('0');
        for (int i = k; i-- > 0;) PUT(t[i]); if (left) for (int i = k + ex; i < w; ++i) PUT(' ');
        break; }
      default: PUT('?'); break;
    }
  }
  if (cap) buf[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char *b, size_t c, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, c, f, a); va_end(a); return r; }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, 1 << 20, f, a); va_end(a); return r; }
// fake FILE: harness-provided content and read-size schedule
struct SymFile { const unsigned char *data; size_t size, pos; bool eof; size_t (*chunk)(size_t want, size_t left); };
size_t fread(void *p, size_t s, size_t n, FILE *f) { SymFile *q = (SymFile*)f; size_t want = s * n, left = q->size - q->pos; if (want > left) { want = left; q->eof = true; }
  for (size_t i = 0; i < want; ++i) ((unsigned char*)p)[i] = q->data[q->pos + i]; q->pos += want; return s ? want / s : 0; }
int fgetc(FILE *f) { unsigned char c; return fread(&c, 1, 1, f) ? c : -1; }
int getc(FILE *f) { return fgetc(f); }
int feof(FILE *f) { return ((SymFile*)f)->eof; }
int ferror(FILE *) { return 0; }
void clearerr(FILE *f) { ((SymFile*)f)->eof = false; }
int fileno(FILE *) { return 7; }
int isatty(int) { return 0; }
int fclose(FILE *) { return 0; }
int fseeko(FILE *f, long o, int w) { SymFile *q = (SymFile*)f; long b = w == 0 ? 0 : w == 1 ? (long)q->pos : (long)q->size; if (b + o < 0) return -1; q->pos = b + o; q->eof = false; return 0; }
int fseek(FILE *f, long o, int w) { return fseeko(f, o, w); }
long ftello(FILE *f) { return (long)((SymFile*)f)->pos; }
long ftell(FILE *f) { return (long)((SymFile*)f)->pos; }
SymFile *symrt_file;
FILE *sym_file(const void *data, size_t n) { SymFile *f = (SymFile*)new char[sizeof(SymFile)]; unsigned char *d = new unsigned char[n + 1]; for (size_t i = 0; i < n; ++i) d[i] = ((const unsigned char*)data)[i]; f->data = d; f->size = n; f->pos = 0; f->eof = false; f->chunk = 0; symrt_file = f; return (FILE*)f; }
int fstat(int, struct stat *st) noexcept { char *c = (char*)st; for (size_t i = 0; i < sizeof *st; ++i) c[i] = 0; st->st_mode = S_IFREG; if (symrt_file) st->st_size = symrt_file->size; return 0; }
int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t, struct timespec *ts) noexcept { ts->tv_sec = 0; ts->tv_nsec = 0; return 0; }
clock_t clock() noexcept { return 0; }
time_t time(time_t *t) noexcept { if (t) *t = 0; return 0; }
int *__errno_location() noexcept { static int e; return &e; }
char *getenv(const char *) noexcept { return 0; }
int __cxa_guard_acquire(uint64_t *g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t *g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t *) { }
void *__dso_handle = 0;
extern void *_ZTVN10__cxxabiv120__si_class_type_infoE[];
// single-inheritance chains only: the object is always at offset 0 of its bases
void *__dynamic_cast(const void *p, const void *src, const void *dst, long) { void **vt = *(void***)p; void **ti = (void**)vt[-1]; long off = (long)vt[-2]; for (int i = 0; i < 8 && ti; ++i) { if ((void*)ti == dst) return (char*)p + off; if (ti[0] != (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 2)) break; ti = (void**)ti[2]; } return 0; }
// C++ streams: a locale without facets and an ios_base without callbacks are enough for unformatted input
static void *symrt_facets[4], *symrt_impl[8] = { 0, symrt_facets };
void symrt_locale_c(void **p) asm("_ZNSt6localeC1Ev"); void symrt_locale_c(void **p) { *p = symrt_impl; }
void symrt_locale_cc(void **p, const void *) asm("_ZNSt6localeC1ERKS_"); void symrt_locale_cc(void **p, const void *) { *p = symrt_impl; }
void symrt_locale_d(void *) asm("_ZNSt6localeD1Ev"); void symrt_locale_d(void *) { }
size_t symrt_locale_id(const void *) asm("_ZNKSt6locale2id5_M_idEv"); size_t symrt_locale_id(const void *) { return 0; }
void symrt_ios_c(void **p) asm("_ZNSt8ios_baseC2Ev"); void symrt_ios_c(void **p) { for (int i = 1; i < 27; ++i) p[i] = 0; p[26] = symrt_impl; }
void symrt_ios_d(void *) asm("_ZNSt8ios_baseD2Ev"); void symrt_ios_d(void *) { }
void symrt_ios_i(void *) asm("_ZNSt8ios_base7_M_initEv"); void symrt_ios_i(void *) { }
void symrt_lib_i() asm("_ZSt21ios_base_library_initv"); void symrt_lib_i() { }
FILE *stdin, *stdout, *stderr;
void symrt_bad_alloc() { throw std::bad_alloc(); }
}
namespace std {
exception::~exception() noexcept { }
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept { }
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept { }
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_exception::~bad_exception() noexcept { }
const char *bad_exception::what() const noexcept { return "bad_exception"; }
static const char *dupz(const char *s) { size_t n = 0; while (s[n]) ++n; char *p = new char[n + 1]; for (size_t i = 0; i <= n; ++i) p[i] = s[i]; return p; }
struct Msg { const char *p; };
#define MSG(t) (*(Msg*)&(t)->_M_msg)
}
// __cow_string members are private; define the exception classes through their storage
#define private public
namespace std {
__cow_string::__cow_string() { _M_p = dupz(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupz(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { char *p = new char[n + 1]; for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &s) noexcept { _M_p = dupz(s._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &s) noexcept { if (this != &s) { delete[] _M_p; _M_p = dupz(s._M_p); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string &&s) noexcept { _M_p = s._M_p; s._M_p = dupz(""); }
__cow_string &__cow_string::operator=(__cow_string &&s) noexcept { const char *t = _M_p; _M_p = s._M_p; s._M_p = t; return *this; }
#define EXC(T) \
  T::T(const string &s) : _M_msg(s) { } T::T(const char *s) : _M_msg(string(s)) { } T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) { } T::T(T &&o) noexcept : exception(o), _M_msg((__cow_string&&)o._M_msg) { } T &T::operator=(T &&o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; } T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept { } const char *T::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error)
EXC(runtime_error)
#define EXD(T, B) T::T(const string &s) : B(s) { } T::T(const char *s) : B(s) { } T::~T() noexcept { }
EXD(invalid_argument, logic_error)
EXD(length_error, logic_error)
EXD(out_of_range, logic_error)
EXD(domain_error, logic_error)
EXD(range_error, runtime_error)
EXD(overflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_cast() { throw bad_exception(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_exception(); }
// red-black tree
typedef _Rb_tree_node_base *NP;
static NP rb_inc(NP x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP rb_dec(NP x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rb_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc((NP)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rb_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec((NP)x); }
static void rotl(NP x, NP &root) { NP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(NP x, NP &root) { NP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { NP y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { NP y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent; NP &lm = h._M_left; NP &rm = h._M_right; NP y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NP m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NP m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) { NP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { NP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } } }
    if (x) x->_M_color = _S_black; }
  return y; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base *t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
}
