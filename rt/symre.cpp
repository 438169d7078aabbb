// Run-time support for std::regex and Boost.Regex in symx: the facets of the classic locale (C locale).
#include <locale>
#include <regex>
#include <new>
#include <string>
#include "sym.h"
typedef std::ctype_base::mask Mask;
struct SymCtype { virtual ~SymCtype() { } virtual char up(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; } virtual const char *ups(char *a, const char *b) const { for (; a < b; ++a) *a = up(*a); return b; }
  virtual char lo(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; } virtual const char *los(char *a, const char *b) const { for (; a < b; ++a) *a = lo(*a); return b; }
  virtual char wid(char c) const { return c; } virtual const char *wids(const char *a, const char *b, char *t) const { while (a < b) *t++ = *a++; return b; } virtual char nar(char c, char) const { return c; } virtual const char *nars(const char *a, const char *b, char, char *t) const { while (a < b) *t++ = *a++; return b; }
  int refs; char pad[sizeof(std::ctype<char>) - 16]; };
struct SymCollate { virtual ~SymCollate() { } virtual int cmp(const char *a, const char *b, const char *c, const char *d) const { for (; a < b && c < d; ++a, ++c) if (*a != *c) return (unsigned char)*a < (unsigned char)*c ? -1 : 1; return (a < b) - (c < d); } virtual std::string tr(const char *a, const char *b) const { return std::string(a, b); } virtual long hash(const char *a, const char *b) const { long h = 0; while (a < b) h = h * 31 + (unsigned char)*a++; return h; }
  int refs; void *loc; };
static SymCtype symrt_ctype; static SymCollate symrt_collate; static Mask symrt_masks[256]; static bool symrt_ctinit;
extern "C" {
const std::ctype<char> &symrt_use_ctype(const void *) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
const std::ctype<char> &symrt_use_ctype(const void *) { std::ctype<char> &t = *(std::ctype<char>*)&symrt_ctype; if (!symrt_ctinit) { symrt_ctinit = true; for (int c = 0; c < 256; ++c) { unsigned m = 0; bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
      if (u) m |= std::ctype_base::upper; if (l) m |= std::ctype_base::lower; if (u || l) m |= std::ctype_base::alpha; if (d) m |= std::ctype_base::digit; if (d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= std::ctype_base::xdigit; if (c == 32 || (c >= 9 && c <= 13)) m |= std::ctype_base::space; if (c >= 32 && c < 127) m |= std::ctype_base::print; if (c == 32 || c == 9) m |= std::ctype_base::blank; if (c < 32 || c == 127) m |= std::ctype_base::cntrl; if (c > 32 && c < 127 && !u && !l && !d) m |= std::ctype_base::punct; symrt_masks[c] = m; t._M_widen[c] = c; t._M_narrow[c] = c; }
    t._M_table = symrt_masks; t._M_widen_ok = 1; t._M_narrow_ok = 1; } return t; }
const std::collate<char> &symrt_use_collate(const void *) asm("_ZSt9use_facetINSt7__cxx117collateIcEEERKT_RKSt6locale"); const std::collate<char> &symrt_use_collate(const void *) { return *(std::collate<char>*)&symrt_collate; }
bool symrt_has_messages(const void *) asm("_ZSt9has_facetINSt7__cxx118messagesIcEEEbRKSt6locale"); bool symrt_has_messages(const void *) { return false; }
const std::messages<char> &symrt_use_messages(const void *) asm("_ZSt9use_facetINSt7__cxx118messagesIcEEERKT_RKSt6locale"); const std::messages<char> &symrt_use_messages(const void *) { return *(std::messages<char>*)0; }
const void *symrt_locale_as(void **p, void **q) asm("_ZNSt6localeaSERKS_"); const void *symrt_locale_as(void **p, void **q) { *p = *q; return p; }
bool symrt_locale_eq(void *const *p, void *const *q) asm("_ZNKSt6localeeqERKS_"); bool symrt_locale_eq(void *const *p, void *const *q) { return true; }
int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
char __libc_single_threaded = 1;
}
namespace std { regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) { } regex_error::~regex_error() noexcept { } void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); } void __throw_system_error(int) { throw std::runtime_error("system_error"); } }
