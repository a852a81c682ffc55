// C05: floating point generation and shrinking behave on every bit pattern.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <limits>
using namespace rc;
namespace {
// |x| as its bit pattern: for non-NaN values the order of magnitudes is the
// unsigned order of these patterns
uint64_t mag(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b & ~(1ull << 63); }
uint32_t mag(float f) { uint32_t b; __builtin_memcpy(&b, &f, 4); return b & ~(1u << 31); }
bool neg(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return (b >> 63) != 0; }
bool neg(float f) { uint32_t b; __builtin_memcpy(&b, &f, 4); return (b >> 31) != 0; }
bool finite(double d) { return mag(d) < 0x7FF0000000000000ull; }
bool finite(float f) { return mag(f) < 0x7F800000u; }
bool nan(double d) { return mag(d) > 0x7FF0000000000000ull; }
bool nan(float f) { return mag(f) > 0x7F800000u; }
// strictly simpler: smaller magnitude, or the same magnitude and positive instead of negative
template <typename T> bool simpler(T c, T v) {
  return both(!nan(c), either(mag(c) < mag(v), both(mag(c) == mag(v), both(neg(v), both(!neg(c), mag(v) != 0)))));
}
template <typename T> void values(T v) {
  auto s = shrink::real<T>(v);
  int n = 0;
  for (;; n++) {
    auto m = s.next();
    if (!m) break;
    T c = *m;
    CHECK(!(c == v), "a shrink never compares equal to the original");
    CHECK(simpler(c, v), "every shrink is strictly simpler than the original");
    if (n >= 8) { CHECK(false, "the shrinks of a number are finitely many"); return; }
  }
  sym_out("n", (uint64_t)n);
  CHECK(!s.next(), "the sequence stays ended");
}
template <typename T> void tree(T v) {
  // the tree of shrinks: each node's children are the shrinks of its value
  auto s = shrinkable::shrinkRecur(v, &shrink::real<T>);
  int depth = (int)sym_param("depth", 2);
  for (int d = 0; d < depth; d++) {
    auto c = h::shrinkAt(s, (size_t)pick("child", 0, 2));
    if (!c) return;
    CHECK(simpler(c->value(), s.value()), "every node of a shrink tree is strictly simpler than its parent");
    s = *c;
  }
}
template <typename T> void generated() {
  int sizes[] = {0, 1, 2, 50, 99, 100, 101, 1000, 2147483647};
  int size = sizes[pick("size", 0, 8)];
  Random r(1);
  auto s = gen::arbitrary<T>()(r, size);
  T v = s.value();
  CHECK(finite(v), "a generated number is finite");
  if (size == 0) CHECK(mag(v) < mag((T)1.0), "at size zero the magnitude is below one");
  CHECK(mag(s.value()) == mag(v), "the value does not change");
}
} // namespace
#define T5(n, T, S)                                                            \
  ENTRY(c05_shrink_##n) { values<T>(S("value")); COVER("shrink"); }            \
  ENTRY(c05_tree_##n) { tree<T>(S("value")); COVER("tree"); }                  \
  ENTRY(c05_gen_##n) { generated<T>(); COVER("gen"); }
T5(f, float, symFloat)
T5(d, double, symDouble)
