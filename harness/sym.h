// Harness API. The same harness source is compiled to LLVM IR (calls below are
// interpreted by the engine, inputs are symbolic) and natively (inputs come
// from a witness file; used to replay counterexamples and to cross-check the
// engine on sampled paths).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <type_traits>
extern "C" {
uint64_t sym_make(const char *name, unsigned bits) noexcept;
void sym_assume_(int) noexcept;
void sym_assert_(int, const char *) noexcept;
void sym_out(const char *tag, uint64_t v) noexcept;
void sym_cover(const char *) noexcept;
int64_t sym_param(const char *name, int64_t def) noexcept;
int64_t sym_live() noexcept;
uint64_t sym_allocs() noexcept;
uint64_t sym_conc(uint64_t) noexcept;
int sym_issym(uint64_t) noexcept;
void sym_fail_alloc(uint64_t) noexcept;
void sym_note(const char *) noexcept;
void sym_opaque(uint64_t) noexcept;
// threads (entries built with `threads`): fn(arg) runs when sym_join is called;
// sym_join explores every order of the threads with up to `switches` preemptions
// at accesses to memory that existed before it
void sym_spawn(void (*fn)(void *), void *arg) noexcept;
void sym_join(uint64_t switches) noexcept;
void sym_lemma_(int) noexcept;
uint64_t sym_ite_(int c, uint64_t a, uint64_t b) noexcept;
}
#ifdef SYM_NATIVE
struct SymEntry { SymEntry(const char *, void (*)()); };
#define ENTRY(n)                                                               \
  extern "C" void n();                                                         \
  static SymEntry entry_##n(#n, n);                                            \
  extern "C" void n()
#else
#define ENTRY(n) extern "C" void n()
#endif
#define CHECK(c, msg) sym_assert_((c) ? 1 : 0, msg)
#define ASSUME(c) sym_assume_((c) ? 1 : 0)
// a hint for the solver: used once it has been shown to hold
#define LEMMA(c) sym_lemma_((c) ? 1 : 0)
#define COVER(s) sym_cover(s)
// bitwise connectives: keep one query instead of forking on each operand
static inline bool both(bool a, bool b) { return (bool)((unsigned)a & (unsigned)b); }
static inline bool either(bool a, bool b) { return (bool)((unsigned)a | (unsigned)b); }
static inline bool implies(bool a, bool b) { return (bool)((unsigned)!a | (unsigned)b); }

template <typename T> inline T sym(const char *name) {
  return static_cast<T>(sym_make(name, std::is_same<T, bool>::value ? 1 : sizeof(T) * 8));
}
// a value in [lo, hi]; pick() enumerates it, range() leaves it symbolic
static inline int64_t range(const char *name, int64_t lo, int64_t hi) {
  int64_t v = static_cast<int64_t>(sym_make(name, 64));
  ASSUME(both(v >= lo, v <= hi));
  return v;
}
static inline int64_t pick(const char *name, int64_t lo, int64_t hi) {
  if (lo == hi) return lo;
  return static_cast<int64_t>(sym_conc(static_cast<uint64_t>(range(name, lo, hi))));
}
static inline float symFloat(const char *n) { uint32_t b = (uint32_t)sym_make(n, 32); float f; __builtin_memcpy(&f, &b, 4); return f; }
static inline double symDouble(const char *n) { uint64_t b = sym_make(n, 64); double f; __builtin_memcpy(&f, &b, 8); return f; }
static inline void outStr(const char *tag, const std::string &s) {
  sym_out(tag, s.size());
  for (char c : s) sym_out(tag, (unsigned char)c);
}
static inline bool eqStr(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  unsigned ok = 1;
  for (size_t i = 0; i < a.size(); i++) ok &= (unsigned)(a[i] == b[i]);
  return ok;
}
