// C04: shrinking an integer is well-founded and reaches every local minimum.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <limits>
using namespace rc;
namespace {
template <typename T> void towards() {
  T v = sym<T>("value"), t = sym<T>("target");
  if (v == t) {
    auto s = shrink::towards<T>(v, t);
    CHECK(!s.next(), "the target itself has no shrinks");
    COVER("none");
    return;
  }
  bool down = false;
  if (t < v) down = true;
  auto s = shrink::towards<T>(v, t);
  T last = t;
  int n = 0;
  for (;; n++) {
    auto m = s.next();
    if (!m) break;
    T c = *m;
    if (n >= 70) { CHECK(false, "the number of candidates is bounded by the width"); return; }
    if (n == 0) CHECK(c == t, "the first candidate is the target");
    // from one candidate to the next, strictly towards the value: this also keeps
    // every candidate between target and value and different from the value
    else if (down) CHECK(last < c, "candidates come closer to the value one after the other");
    else CHECK(c < last, "candidates come closer to the value one after the other");
    if (down) CHECK(c < v, "candidates lie between target and value, the value excluded");
    else CHECK(v < c, "candidates lie between target and value, the value excluded");
    last = c;
  }
  CHECK(n > 0, "a value different from the target has a candidate");
  CHECK(last == (T)(down ? v - 1 : v + 1), "the neighbour of the value on the target's side is offered");
  CHECK(!s.next(), "the sequence stays ended");
  sym_out("last", (uint64_t)last);
  COVER("towards");
}
template <typename T> void integral() {
  T v = sym<T>("value");
  auto s = shrink::integral<T>(v);
  bool neg = false;
  if (std::is_signed<T>::value && v < 0) neg = true;
  bool negatable = false;
  if (neg && v != std::numeric_limits<T>::min()) negatable = true;
  int n = 0;
  bool sawNeg = false;
  T last = 0;
  for (;; n++) {
    auto m = s.next();
    if (!m) break;
    T c = *m;
    if (n >= 70) { CHECK(false, "the number of candidates is bounded by the width"); return; }
    if (n == 0) CHECK(c == 0, "the first candidate is zero");
    else if (negatable && n == 1) {
      CHECK(c == (T)(-v), "the negation of a negative value is offered right after zero");
      sawNeg = true;
      continue;
    } else if (neg) CHECK(c < last, "candidates come closer to the value one after the other");
    else CHECK(last < c, "candidates come closer to the value one after the other");
    if (neg) CHECK(v < c, "candidates lie between zero and the value, the value excluded");
    else CHECK(c < v, "candidates lie between zero and the value, the value excluded");
    last = c;
  }
  if (v == 0) { CHECK(n == 0, "zero has no shrinks"); COVER("zero"); return; }
  CHECK(n > 0, "zero is always offered");
  CHECK(sawNeg == negatable, "the negation is offered exactly when it is representable");
  CHECK(last == (T)(neg ? v + 1 : v - 1), "the neighbour of the value on the side of zero is offered");
  COVER("integral");
}
// greedy descent over a monotone condition ends exactly at its boundary
template <typename T> void greedy(bool down) {
  T t = sym<T>("target");
  int64_t span = sym_param("span", 40);
  int64_t k = pick("distance", 0, span), j = pick("bound", 0, k);
  if (down) ASSUME(t <= (T)(std::numeric_limits<T>::max() - (T)span));
  else ASSUME(t >= (T)(std::numeric_limits<T>::min() + (T)span));
  // positions are offsets from the target; the condition fails from offset j on
  int64_t at = k;
  for (int step = 0; step < 300; step++) {
    auto s = shrink::towards<T>(down ? t + (T)at : t - (T)at, t);
    bool moved = false;
    for (int i = 0; i < 70 && !moved; i++) {
      auto m = s.next();
      if (!m) break;
      int64_t off = (int64_t)sym_conc((uint64_t)(down ? *m - t : t - *m)); // the same for every target, or it forks
      if (off >= j && off < at) { at = off; moved = true; }
    }
    if (!moved) {
      CHECK(at == j, "greedy shrinking ends exactly at the boundary");
      return;
    }
  }
  CHECK(false, "greedy shrinking ends within a bounded number of steps");
}
} // namespace
#define T4(n, T)                                                               \
  ENTRY(c04_towards_##n) { towards<T>(); COVER("towards"); }                   \
  ENTRY(c04_integral_##n) { integral<T>(); COVER("integral"); }
T4(i8, int8_t)
T4(u8, uint8_t)
T4(i16, int16_t)
T4(u16, uint16_t)
T4(i32, int32_t)
T4(u32, uint32_t)
T4(i64, int64_t)
T4(u64, uint64_t)
T4(char, char)
ENTRY(c04_greedy_i32) {
  greedy<int32_t>(pick("down", 0, 1) != 0);
  COVER("greedy");
}
ENTRY(c04_greedy_i64) {
  greedy<int64_t>(pick("down", 0, 1) != 0);
  COVER("greedy");
}
ENTRY(c04_greedy_u32) {
  greedy<uint32_t>(pick("down", 0, 1) != 0);
  COVER("greedy");
}
ENTRY(c04_bool) {
  bool v = sym<bool>("value");
  auto s = shrink::boolean(v);
  auto m = s.next();
  CHECK((bool)m == v, "exactly true has a shrink");
  if (m) {
    CHECK(*m == false, "true shrinks to false");
    CHECK(!s.next(), "true has only one shrink");
  }
  COVER("bool");
}
// generated integers carry exactly these shrink trees, at every depth
ENTRY(c04_tree) {
  int v = sym<int>("value");
  auto s = shrinkable::shrinkRecur(v, &shrink::integral<int>);
  CHECK(s.value() == v, "the root of the tree is the value");
  int depth = (int)sym_param("depth", 2);
  int cur = v;
  for (int d = 0; d < depth; d++) {
    size_t k = (size_t)pick("child", 0, 4);
    auto c = h::shrinkAt(s, k);
    auto seq = shrink::integral<int>(cur);
    Maybe<int> want;
    for (size_t i = 0; i <= k; i++) { want = seq.next(); if (!want) break; }
    CHECK((bool)c == (bool)want, "the tree has a child exactly where the value has a candidate");
    if (!c || !want) return;
    CHECK(c->value() == *want, "the child's value is the candidate");
    cur = *want;
    s = *c;
  }
  COVER("tree");
}
