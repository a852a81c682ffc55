// C03: integer generators stay in range and honour the size.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <limits>
using namespace rc;
namespace {
const int kSizes[] = {0, 1, 2, 10, 33, 50, 99, 100, 101, 250, 2147483647};
int pickSize(int n = 11) { return kSizes[pick("size", 0, n - 1)]; }
// the word a Random will produce next, without disturbing it
uint64_t peek(const Random &r) { Random c(r); return c.next(); }

// how scaling rounds, as a hint: x*size/100 to the nearest, computed without overflow
uint64_t scaled(uint64_t x, int size) {
  uint64_t n = (uint64_t)(size > 100 ? 100 : size);
  return (x / 100) * n + ((x % 100) * n + 50) / 100;
}
template <typename T> void hint(T lo, T hi, int size) {
  uint64_t d = (uint64_t)hi - (uint64_t)lo - 1;
  uint64_t y = gen::detail::scaleInteger(d, size);
  LEMMA(y == scaled(d, size));
  LEMMA(y <= d);
  sym_opaque(y);
}
// every non-empty range: minimum and width; for 64 bits the width stays one term
template <typename T> void anyRange(T &lo, T &hi) {
  lo = sym<T>("min");
  T d = sym<T>("width");
  hi = (T)((uint64_t)lo + (uint64_t)d + 1);
  ASSUME(lo < hi);
}
template <typename T> bool inside(T lo, T x, T hi) { return both(lo <= x, x < hi); }

template <typename T> void emptyRange() {
  T lo = sym<T>("min"), hi = sym<T>("max");
  ASSUME(hi <= lo);
  bool threw = false;
  try {
    gen::inRange<T>(lo, hi)(h::rnd(1), kSizes[sym_param("size", 5)]).value(); // formatting the bounds into the message forks a lot
  } catch (const GenerationFailure &) { threw = true; }
  CHECK(threw, "an empty range is a generation failure");
}
template <typename T> void inRange() {
  T lo, hi;
  anyRange(lo, hi);
  int size = pickSize();
  hint(lo, hi, size);
  auto s = gen::inRange<T>(lo, hi)(h::rnd(1), size);
  T v = s.value();
  CHECK(inside(lo, v, hi), "the value lies in the range");
  if (size == 0) CHECK(v == lo, "at size zero the smallest value is generated");
  // the shrinks lead to the minimum and stay in the range
  auto seq = s.shrinks();
  auto c = seq.next();
  if (v == lo) { CHECK(!c, "the minimum has no shrinks"); COVER("minimum"); return; }
  CHECK(c && c->value() == lo, "the first shrink is the minimum");
  if (c) CHECK(!c->shrinks().next(), "the minimum has no shrinks");
  c = seq.next();
  if (c) CHECK(both(lo < c->value(), c->value() < v), "shrinks stay between the minimum and the value");
}
// what is reachable at one size is reachable at every larger one, and everything at the nominal size
template <typename T> void reach() {
  T lo, hi;
  anyRange(lo, hi);
  int i = (int)pick("size", 0, 9); // neighbouring sizes; further apart follows
  int s1 = kSizes[i], s2 = kSizes[i + 1];
  hint(lo, hi, s1);
  hint(lo, hi, s2);
  auto g = gen::inRange<T>(lo, hi);
  T v = g(h::rnd(1), s1).value();
  Random r2 = h::rnd(2);
  ASSUME(peek(r2) == (uint64_t)v - (uint64_t)lo);
  CHECK(g(r2, s2).value() == v, "a value reachable at one size is reachable at larger sizes");
}
template <typename T> void whole() {
  T lo, hi, x = sym<T>("x");
  anyRange(lo, hi);
  ASSUME(inside(lo, x, hi));
  int size = kSizes[pick("size", 7, 10)];
  Random r = h::rnd(3);
  ASSUME(peek(r) == (uint64_t)x - (uint64_t)lo);
  hint(lo, hi, size);
  CHECK(gen::inRange<T>(lo, hi)(r, size).value() == x, "at the nominal size every value of the range is reachable");
}
template <typename T> uint64_t mag(T v) { return (std::is_signed<T>::value && v < 0) ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; }
template <typename T> void arb() {
  int size = pickSize();
  auto s = gen::arbitrary<T>()(h::rnd(1), size);
  T v = s.value();
  if (size == 0) CHECK(v == 0, "at size zero an arbitrary integer is zero");
  auto want = shrink::integral<T>(v);
  auto seq = s.shrinks();
  for (int i = 0; i < 3; i++) {
    auto c = seq.next();
    auto w = want.next();
    CHECK((bool)c == (bool)w, "a generated integer has the shrinks of its value");
    if (!c || !w) return;
    CHECK(c->value() == *w, "a generated integer has the shrinks of its value");
    auto cs = c->shrinks().next();
    auto ws = shrink::integral<T>(*w).next();
    CHECK((bool)cs == (bool)ws, "shrinks of a generated integer shrink further");
    if (cs && ws) CHECK(cs->value() == *ws, "shrinks of a generated integer shrink further");
  }
}
// every value of the type is reachable at the nominal size
template <typename T> void arbWhole() {
  T x = sym<T>("x");
  Random r = h::rnd(3);
  ASSUME(peek(r) == (uint64_t)x);
  int size = kSizes[pick("size", 7, 10)];
  CHECK(gen::arbitrary<T>()(r, size).value() == x, "at the nominal size every integer is reachable");
}
enum { NonZero, Positive, Negative, NonNegative };
template <typename T> bool holds(int p, T v) {
  switch (p) {
  case NonZero: return v != 0;
  case Positive: return v > 0;
  case Negative: return v < 0;
  default: return v >= 0;
  }
}
template <typename T> Gen<T> predGen(int p) {
  switch (p) {
  case NonZero: return gen::nonZero<T>();
  case Positive: return gen::positive<T>();
  case Negative: return gen::negative<T>();
  default: return gen::nonNegative<T>();
  }
}
template <typename T> void pred() {
  int p = (int)pick("predicate", 0, 3);
  if (!std::is_signed<T>::value && p == Negative) return;
  int size = kSizes[pick("size", 0, 9)];
  auto g = predGen<T>(p);
  try {
    auto s = g(h::rnd(1), size);
    CHECK(holds(p, s.value()), "the value satisfies the predicate");
    auto seq = s.shrinks();
    for (int i = 0; i < 3; i++) {
      auto c = seq.next();
      if (!c) break;
      CHECK(holds(p, c->value()), "shrinks satisfy the predicate");
      if (i < 2) continue;
      auto cc = c->shrinks().next();
      if (cc) CHECK(holds(p, cc->value()), "shrinks of shrinks satisfy the predicate");
    }
    COVER("value");
  } catch (const GenerationFailure &) {
  }
}
// every draw rejected: a failure after a bounded number of tries
template <typename T> void predFail() {
  int p = pick("predicate", 0, 1) ? NonZero : NonNegative;
  int size = (int)pick("size", 0, 1) * 100;
  auto g = predGen<T>(p);
  try {
    CHECK(holds(p, g(h::rnd(1), size).value()), "the value satisfies the predicate");
    COVER("value");
  } catch (const GenerationFailure &) {
    CHECK(sym_words_used >= 2, "generation fails only after retrying");
    COVER("failure");
  }
}
} // namespace
#define T3(n, T)                                                               \
  ENTRY(c03_range_##n) { inRange<T>(); COVER("range"); }                       \
  ENTRY(c03_empty_##n) { emptyRange<T>(); COVER("empty"); }                    \
  ENTRY(c03_reach_##n) { reach<T>(); COVER("reach"); }                         \
  ENTRY(c03_whole_##n) { whole<T>(); COVER("whole"); }                         \
  ENTRY(c03_arb_##n) { arb<T>(); COVER("arb"); }                               \
  ENTRY(c03_arbwhole_##n) { arbWhole<T>(); COVER("arbwhole"); }                \
  ENTRY(c03_pred_##n) { pred<T>(); COVER("pred"); }                            \
  ENTRY(c03_predfail_##n) { predFail<T>(); COVER("predfail"); COVER("failure"); }
T3(i8, int8_t)
T3(u8, uint8_t)
T3(i16, int16_t)
T3(u16, uint16_t)
T3(i32, int32_t)
T3(u32, uint32_t)
T3(i64, int64_t)
T3(u64, uint64_t)
T3(char, char)
ENTRY(c03_scale) {
  uint64_t x = sym<uint64_t>("x");
  int si = (int)pick("size", sym_param("from", 0), sym_param("to", 101));
  if (si > 3 && si < 96 && si % (int)sym_param("step", 9) != 0) return;
  int size = si == 101 ? 2147483647 : si;
  uint64_t a = gen::detail::scaleInteger(x, size);
  CHECK(a <= x, "scaling never enlarges");
  if (size == 0) CHECK(a == 0, "size zero scales to zero");
  if (size >= 100) CHECK(a == x, "the nominal size leaves the value alone");
  if (size < 100) {
    uint64_t b = gen::detail::scaleInteger(x, size + 1);
    LEMMA(a == scaled(x, size));
    LEMMA(b == scaled(x, size + 1));
    sym_opaque(a);
    sym_opaque(b);
    CHECK(b >= a, "scaling is monotone in the size");
  }
  COVER("scale");
}
ENTRY(c03_bool) {
  int size = pickSize();
  auto s = gen::arbitrary<bool>()(h::rnd(1), size);
  bool v = s.value();
  auto seq = s.shrinks();
  auto c = seq.next();
  CHECK((bool)c == v, "exactly true has a shrink");
  if (c) CHECK(both(!c->value(), !c->shrinks().next()), "true shrinks to false and no further");
  COVER("bool");
}
