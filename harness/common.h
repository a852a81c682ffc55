// Shared helpers; include after <rapidcheck.h>.
#pragma once
#include <utility>
extern "C" uint64_t sym_words_used;
namespace h {
inline rc::Random rnd(uint64_t seed) { return rc::Random(seed * 0x9E3779B97F4A7C15ull + 7); }
// all elements of a sequence, at most n
template <typename T>
std::vector<T> take(rc::Seq<T> seq, size_t n = 200) {
  std::vector<T> v;
  for (size_t i = 0; i < n; i++) {
    auto x = seq.next();
    if (!x) return v;
    v.push_back(std::move(*x));
  }
  CHECK(false, "a sequence is longer than any legal one");
  return v;
}
template <typename T>
std::vector<T> shrinkValues(const rc::Shrinkable<T> &s, size_t n = 200) {
  std::vector<T> v;
  auto seq = s.shrinks();
  for (size_t i = 0; i < n; i++) {
    auto x = seq.next();
    if (!x) return v;
    v.push_back(x->value());
  }
  CHECK(false, "a shrink sequence is longer than any legal one");
  return v;
}
// the i-th shrink, if there is one
template <typename T>
rc::Maybe<rc::Shrinkable<T>> shrinkAt(const rc::Shrinkable<T> &s, size_t i) {
  auto seq = s.shrinks();
  for (;;) {
    auto x = seq.next();
    if (!x) return rc::Nothing;
    if (i-- == 0) return std::move(*x);
  }
}
} // namespace h
