// Runtime library for symbolic execution: the out-of-line pieces of
// libstdc++/libsupc++ that the code under test links against. Compiled to IR
// and linked with the code under test.
#include <rcshim_str.h>
#include <string>
#include <map>
#include <list>
#include <stdexcept>
#include <functional>
#include <memory>
#include <exception>
#include <new>
#include <typeinfo>
#include <random>
#include <chrono>
#include <unordered_map>
#include <cstdarg>
#include <ctime>
#include <cmath>
#include <cctype>
extern "C" {
void *sym_heap_alloc(size_t) noexcept;
void sym_heap_free(void *) noexcept;
char __libc_single_threaded = 1;
void *__dso_handle = nullptr;
}
// ---- operator new / delete
static void *rt_new(size_t n) { void *p = sym_heap_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return rt_new(n); }
void *operator new[](size_t n) { return rt_new(n); }

void *operator new(size_t n, const std::nothrow_t &) noexcept { return sym_heap_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sym_heap_alloc(n); }
void operator delete(void *p) noexcept { sym_heap_free(p); }
void operator delete[](void *p) noexcept { sym_heap_free(p); }
void operator delete(void *p, size_t) noexcept { sym_heap_free(p); }
void operator delete[](void *p, size_t) noexcept { sym_heap_free(p); }

void operator delete(void *p, const std::nothrow_t &) noexcept { sym_heap_free(p); }
namespace std { const nothrow_t nothrow{}; }

// ---- standard exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
// logic_error / runtime_error keep their text in a shared string; the model
// keeps a private heap copy in the pointer sized member.
static char *dup(const char *s) {
  size_t n = __builtin_strlen(s) + 1;
  char *p = (char *)::operator new(n);
  __builtin_memcpy(p, s, n);
  return p;
}
static char *dup(const string &s) {
  char *p = (char *)::operator new(s.size() + 1);
  __builtin_memcpy(p, s.data(), s.size());
  p[s.size()] = 0;
  return p;
}
#define RT_PTR(o) (*reinterpret_cast<char **>(reinterpret_cast<char *>(const_cast<void *>(static_cast<const void *>(o))) + 8))
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string &s) { _M_p = dup(s); }
__cow_string::__cow_string(const char *s, size_t) { _M_p = dup(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p ? dup(o._M_p) : nullptr; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
  if (this != &o) { ::operator delete((void *)_M_p); _M_p = o._M_p ? dup(o._M_p) : nullptr; }
  return *this;
}
__cow_string::~__cow_string() { ::operator delete((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define RT_EXC(C, B)                                                           \
  C::C(const string &s) : B(s) {}                                              \
  C::C(const char *s) : B(s) {}                                                \
  C::~C() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(static_cast<__cow_string &&>(o._M_msg)) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = static_cast<__cow_string &&>(o._M_msg); return *this; }
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return RT_PTR(this); }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(static_cast<__cow_string &&>(o._M_msg)) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = static_cast<__cow_string &&>(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return RT_PTR(this); }
RT_EXC(domain_error, logic_error)
RT_EXC(invalid_argument, logic_error)
RT_EXC(length_error, logic_error)
RT_EXC(out_of_range, logic_error)
RT_EXC(range_error, runtime_error)
RT_EXC(overflow_error, runtime_error)
RT_EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }


template class basic_string<char>;
template class basic_string<wchar_t>;
template class basic_string<char16_t>;
template class basic_string<char32_t>;

// ---- red/black tree: a plain (unbalanced) search tree is enough, balance is
// not observable through the container interface.
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return decr(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x; // also sets leftmost when p == &h
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *nextMin = nullptr, *prevMax = nullptr;
  if (h._M_left == z) nextMin = inc(z);
  if (h._M_right == z) prevMax = decr(z);
  _Rb_tree_node_base **link = h._M_parent == z ? &h._M_parent : z->_M_parent->_M_left == z ? &z->_M_parent->_M_left : &z->_M_parent->_M_right;
  _Rb_tree_node_base *r;
  if (!z->_M_left) { r = z->_M_right; if (r) r->_M_parent = z->_M_parent; }
  else if (!z->_M_right) { r = z->_M_left; r->_M_parent = z->_M_parent; }
  else {
    r = z->_M_right;
    while (r->_M_left) r = r->_M_left;
    if (r != z->_M_right) {
      r->_M_parent->_M_left = r->_M_right;
      if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right;
      z->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left;
    z->_M_left->_M_parent = r;
    r->_M_parent = z->_M_parent;
  }
  *link = r;
  if (nextMin) h._M_left = nextMin;
  if (prevMax) h._M_right = prevMax;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
// ---- std::list
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      auto *a = x._M_next, *b = x._M_prev;
      x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b;
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) swap(y, x);
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
// ---- unordered containers (same growth points as libstdc++)
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 73, 89, 109, 131, 163, 199, 241, 307, 401, 541, 709, 1031, 2053, 4099, 8209};
static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n < sizeof(fast)) {
    if (n == 0) return 1;
    _M_next_resize = fast[n];
    return fast[n];
  }
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni;
    if (!_M_next_resize && want < 11) want = 11;
    if (want >= nb) {
      size_t g = want + 1 > nb * 2 ? want + 1 : nb * 2;
      return {true, _M_next_bkt(g)};
    }
    _M_next_resize = nb;
  }
  return {false, 0};
}
} // namespace __detail
// any hash is legal: one that depends on the length only keeps lookups of
// symbolic keys decided by comparing the keys themselves
size_t _Hash_bytes(const void *, size_t n, size_t) { return n * 1099511628211ULL; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
// ---- misc
void random_device::_M_init(const string &) {}
void random_device::_M_init_pretr1(const string &) {}
void random_device::_M_fini() {}
} // namespace std
extern "C" uint64_t sym_make(const char *, unsigned) noexcept;
extern "C" uint64_t sym_conc(uint64_t) noexcept;
extern "C" const char *rt_env_rc_params = nullptr;
namespace std {
random_device::result_type random_device::_M_getval() { return (result_type)0x5eed5eed; }
chrono::system_clock::time_point chrono::system_clock::now() noexcept { return time_point(duration(1000000)); }
chrono::steady_clock::time_point chrono::steady_clock::now() noexcept { return time_point(duration(1000000)); }
} // namespace std
// ---- the standard streams swallow their output
namespace std {
ostream cout;
ostream cerr;
ostream clog;
istream cin;
} // namespace std
extern "C" char *getenv(const char *n) noexcept {
  if (rt_env_rc_params && !__builtin_strcmp(n, "RC_PARAMS")) return const_cast<char *>(rt_env_rc_params);
  return nullptr;
}
extern "C" long time(long *) noexcept { return 1000; }
extern "C" wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
extern "C" wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)__builtin_memmove(d, s, n * sizeof(wchar_t)); }
extern "C" wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
extern "C" size_t wcslen(const wchar_t *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
extern "C" int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
extern "C" int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
extern "C" int isprint(int c) noexcept { return c >= 32 && c <= 126; }
extern "C" int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
extern "C" int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
extern "C" int isalpha(int c) noexcept { return islower(c) || isupper(c); }
extern "C" int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
extern "C" int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
extern "C" int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
extern "C" int isgraph(int c) noexcept { return c > 32 && c <= 126; }
extern "C" int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
extern "C" int isblank(int c) noexcept { return c == ' ' || c == 9; }
extern "C" int abs(int v) noexcept { return v < 0 ? -v : v; }
extern "C" long labs(long v) noexcept { return v < 0 ? -v : v; }
extern "C" int *__errno_location() noexcept { static int e; return &e; }
extern "C" int strncmp(const char *a, const char *b, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; }
  return 0;
}
extern "C" char *rt_strchr(const char *s, int c) noexcept { for (;; s++) { if (*s == (char)c) return const_cast<char *>(s); if (!*s) return nullptr; } }
extern "C" char *strchr(const char *, int) noexcept __attribute__((alias("rt_strchr")));
extern "C" char *rt_strrchr(const char *s, int c) noexcept { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return const_cast<char *>(r); } }
extern "C" char *strrchr(const char *, int) noexcept __attribute__((alias("rt_strrchr")));
extern "C" char *rt_strstr(const char *s, const char *t) noexcept {
  for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return const_cast<char *>(s); if (!*s) return nullptr; }
}
extern "C" char *strstr(const char *, const char *) noexcept __attribute__((alias("rt_strstr")));
extern "C" char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
extern "C" char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
extern "C" char *strcat(char *d, const char *s) noexcept { char *r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
// digits of a number in text; what strtol and its like have in common
static bool rt_scan(const char *s, char **end, int base, bool &neg, unsigned long long &v) {
  const char *p = s;
  neg = false;
  v = 0;
  bool over = false, any = false;
  while (isspace(*p)) p++;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit(p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    int d = isdigit(*p) ? *p - '0' : isalpha(*p) ? tolower(*p) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (v > (~0ULL - (unsigned)d) / (unsigned)base) over = true;
    v = v * (unsigned)base + (unsigned)d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  return over;
}
static const int RT_ERANGE = 34;
extern "C" long long rt_strtoll(const char *s, char **end, int base) noexcept {
  bool neg;
  unsigned long long v;
  bool over = rt_scan(s, end, base, neg, v);
  if (over || v > 0x7fffffffffffffffULL + neg) { *__errno_location() = RT_ERANGE; return neg ? -__LONG_LONG_MAX__ - 1 : __LONG_LONG_MAX__; }
  return (long long)(neg ? 0 - v : v);
}
extern "C" unsigned long long rt_strtoull(const char *s, char **end, int base) noexcept {
  bool neg;
  unsigned long long v;
  if (rt_scan(s, end, base, neg, v)) { *__errno_location() = RT_ERANGE; return ~0ULL; }
  return neg ? 0 - v : v;
}
extern "C" long strtol(const char *s, char **e, int b) noexcept { return (long)rt_strtoll(s, e, b); }
extern "C" long long strtoll(const char *s, char **e, int b) noexcept { return rt_strtoll(s, e, b); }
extern "C" unsigned long strtoul(const char *s, char **e, int b) noexcept { return rt_strtoull(s, e, b); }
extern "C" unsigned long long strtoull(const char *s, char **e, int b) noexcept { return rt_strtoull(s, e, b); }
extern "C" long lround(double v) noexcept { return (long)__builtin_round(v); }
extern "C" long long llround(double v) noexcept { return (long long)__builtin_round(v); }
extern "C" long lroundf(float v) noexcept { return (long)__builtin_roundf(v); }
extern "C" long long llroundf(float v) noexcept { return (long long)__builtin_roundf(v); }
extern "C" long lrint(double v) noexcept { return (long)__builtin_rint(v); }
extern "C" long long llrint(double v) noexcept { return (long long)__builtin_rint(v); }
extern "C" double nan(const char *) noexcept { return __builtin_nan(""); }
extern "C" float nanf(const char *) noexcept { return __builtin_nanf(""); }
extern "C" double modf(double v, double *ip) noexcept { *ip = __builtin_trunc(v); return __builtin_copysign(v == *ip ? 0 : v - *ip, v); }
extern "C" double frexp(double v, int *e) noexcept {
  unsigned long long b; __builtin_memcpy(&b, &v, 8);
  *e = 0;
  int x = (int)(b >> 52 & 2047);
  if (v == 0 || x == 2047) return v;
  if (x == 0) { v *= 18014398509481984.0; __builtin_memcpy(&b, &v, 8); x = (int)(b >> 52 & 2047) - 54; }
  *e = x - 1022;
  b = (b & ~(2047ULL << 52)) | (1022ULL << 52);
  __builtin_memcpy(&v, &b, 8);
  return v;
}
extern "C" double nextafter(double a, double c) noexcept {
  if (a != a || c != c) return a + c;
  if (a == c) return c;
  unsigned long long b; __builtin_memcpy(&b, &a, 8);
  if (a == 0) b = 1 | (c < 0 ? 1ULL << 63 : 0);
  else if ((a < c) == (a > 0)) b++;
  else b--;
  __builtin_memcpy(&a, &b, 8);
  return a;
}
// Decimal formatting of finite doubles. Exact for values with |v| < 2^63 and at
// most 15 significant digits; rapidcheck prints percentages and small values.
static size_t put_u(char *o, unsigned long long v) {
  char t[24]; int i = 24;
  do { t[--i] = (char)('0' + v % 10); v /= 10; } while (v);
  for (int k = i; k < 24; k++) o[k - i] = t[k];
  return (size_t)(24 - i);
}
extern "C" size_t rcshim_fmt_double(char *o, double v, unsigned f, long prec) noexcept {
  size_t n = 0;
  if (v != v) { o[0] = 'n'; o[1] = 'a'; o[2] = 'n'; return 3; }
  unsigned long long bits; __builtin_memcpy(&bits, &v, 8);
  if (bits >> 63) { o[n++] = '-'; v = -v; }
  if (v > 1.7976931348623157e308) { o[n++] = 'i'; o[n++] = 'n'; o[n++] = 'f'; return n; }
  if (f & 4) { // fixed
    double p = 1; for (long i = 0; i < prec; i++) p *= 10;
    double sc = v * p; unsigned long long u = (unsigned long long)sc; double fr = sc - (double)u;
    if (fr > 0.5 || (fr == 0.5 && (u & 1))) u++;
    unsigned long long ip = (unsigned long long)p;
    n += put_u(o + n, u / ip);
    if (prec > 0) { o[n++] = '.'; unsigned long long r = u % ip; for (long i = prec - 1; i >= 0; i--) { o[n + i] = (char)('0' + r % 10); r /= 10; } n += prec; }
    return n;
  }
  if (v == 0) { o[n++] = '0'; return n; }
  if (prec == 0) prec = 1;
  // %g
  int e = 0; double m = v;
  while (m >= 10) { m /= 10; e++; }
  while (m < 1) { m *= 10; e--; }
  double p = 1; for (long i = 1; i < prec; i++) p *= 10;
  double sc = m * p; unsigned long long u = (unsigned long long)sc; double fr = sc - (double)u;
  if (fr > 0.5 || (fr == 0.5 && (u & 1))) u++;
  unsigned long long lim = (unsigned long long)p * 10;
  if (u >= lim) { u /= 10; e++; }
  char d[24]; size_t nd = put_u(d, u);
  while (nd > 1 && d[nd - 1] == '0') nd--;
  if (e < -4 || e >= prec) {
    o[n++] = d[0];
    if (nd > 1) { o[n++] = '.'; for (size_t i = 1; i < nd; i++) o[n++] = d[i]; }
    o[n++] = 'e'; o[n++] = e < 0 ? '-' : '+'; unsigned ae = e < 0 ? -e : e; if (ae < 10) o[n++] = '0'; n += put_u(o + n, ae);
    return n;
  }
  if (e < 0) { o[n++] = '0'; o[n++] = '.'; for (int i = -1; i > e; i--) o[n++] = '0'; for (size_t i = 0; i < nd; i++) o[n++] = d[i]; return n; }
  for (int i = 0; i <= e; i++) o[n++] = (size_t)i < nd ? d[i] : '0';
  if (nd > (size_t)e + 1) { o[n++] = '.'; for (size_t i = e + 1; i < nd; i++) o[n++] = d[i]; }
  return n;
}

namespace std {
template <> istream &operator>>(istream &is, string &s) {
  if (!is.sentry_()) return is;
  s.clear();
  long w = is.width(0);
  while (is.has_() && !istream::ws_(is.cur_()) && (w <= 0 || (long)s.size() < w)) { s.push_back(is.cur_()); is.adv_(); }
  if (!is.has_()) is.setstate(ios_base::eofbit);
  if (s.empty()) is.setstate(ios_base::failbit);
  return is;
}
template <> istream &getline(istream &is, string &s, char d) {
  if (!is.sentry_(true)) return is;
  s.clear();
  bool any = false;
  while (is.has_()) {
    char c = is.cur_();
    is.adv_();
    any = true;
    if (c == d) return is;
    s.push_back(c);
  }
  is.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit);
  return is;
}
template istream &getline(istream &, string &);
} // namespace std

// run-time type information of the fundamental types
struct rt_ti { const void *vptr; const char *name; };
#define RT_TI(m) extern "C" const rt_ti _ZTI##m; extern "C" const rt_ti _ZTI##m = {nullptr, #m}; \
  extern "C" const rt_ti _ZTIP##m; extern "C" const rt_ti _ZTIP##m = {nullptr, "P" #m}; \
  extern "C" const rt_ti _ZTIPK##m; extern "C" const rt_ti _ZTIPK##m = {nullptr, "PK" #m};
RT_TI(v) RT_TI(b) RT_TI(c) RT_TI(a) RT_TI(h) RT_TI(s) RT_TI(t) RT_TI(i) RT_TI(j) RT_TI(l) RT_TI(m) RT_TI(x) RT_TI(y) RT_TI(f) RT_TI(d) RT_TI(e) RT_TI(w) RT_TI(Ds) RT_TI(Di) RT_TI(n) RT_TI(o)
