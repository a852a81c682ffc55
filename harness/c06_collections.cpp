// C06: shrinking collections removes or simplifies, and offers every single step.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <deque>
#include <string>
using namespace rc;
namespace {
template <typename C> C without(const C &c, size_t at, size_t n) {
  C r;
  for (size_t i = 0; i < c.size(); i++)
    if (i < at || i >= at + n) r.push_back(c[i]);
  return r;
}
template <typename C> bool same(const C &a, const C &b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok = both(ok, a[i] == b[i]);
  return ok;
}
template <typename C> C symColl(size_t n) {
  C c;
  for (size_t i = 0; i < n; i++) c.push_back(sym<typename C::value_type>("x"));
  return c;
}
template <typename C> void chunks(const C &c) {
  auto s = shrink::removeChunks(c);
  std::vector<C> got;
  for (;;) {
    auto m = s.next();
    if (!m) break;
    if (got.size() > c.size() * c.size()) { CHECK(false, "finitely many candidates"); return; }
    got.push_back(*m);
  }
  CHECK(!s.next(), "the sequence stays ended");
  size_t last = c.size();
  for (auto &g : got) {
    CHECK(g.size() < c.size(), "every candidate is shorter than the original");
    if (g.size() >= c.size()) return;
    size_t n = c.size() - g.size();
    CHECK(n <= last, "larger runs are removed first");
    last = n;
    bool ok = false;
    for (size_t at = 0; at + n <= c.size(); at++) ok = either(ok, same(g, without(c, at, n)));
    CHECK(ok, "a candidate is the collection without one contiguous run");
  }
  for (size_t i = 0; i < c.size(); i++) {
    C want = without(c, i, 1);
    bool ok = false;
    for (auto &g : got) ok = either(ok, same(g, want));
    CHECK(ok, "the removal of every single element is offered");
  }
  if (!c.empty()) CHECK(got.front().empty(), "the empty collection is offered first");
}
// each element has nsh shrinks of its own, the same function of the value every time
template <typename C> void each(const C &c) {
  typedef typename C::value_type T;
  T t = sym<T>("threshold"), a = sym<T>("a"), b = sym<T>("b");
  ASSUME(both(a != 0, both(b != 0, a != b)));
  // below the threshold: none, above: two
  auto shr = [=](T x) { return x < t ? Seq<T>() : seq::just<T>((T)(x ^ a), (T)(x ^ b)); };
  std::vector<C> want;
  for (size_t i = 0; i < c.size(); i++)
    if (!(c[i] < t)) {
      C w = c;
      w[i] = (T)(c[i] ^ a);
      want.push_back(w);
      w[i] = (T)(c[i] ^ b);
      want.push_back(w);
    }
  auto s = shrink::eachElement(c, shr);
  std::vector<C> got;
  for (;;) {
    auto m = s.next();
    if (!m) break;
    if (got.size() > 4 * c.size()) { CHECK(false, "finitely many candidates"); return; }
    got.push_back(*m);
  }
  CHECK(!s.next(), "the sequence stays ended");
  CHECK(got.size() == want.size(), "one candidate for every shrink of every element");
  for (auto &g : got) {
    bool ok = false;
    for (auto &w : want) ok = either(ok, same(g, w));
    CHECK(ok, "a candidate replaces exactly one element by one of its own shrinks");
  }
  for (auto &w : want) {
    bool ok = false;
    for (auto &g : got) ok = either(ok, same(g, w));
    CHECK(ok, "every shrink of every element is offered");
  }
}
// a character is simpler if it is one of the fixed simple ones or the lower case form
template <typename T> bool simple(T c, T v) {
  bool ok = false;
  for (char x : {'a', 'b', 'c', 'A', 'B', 'C', '1', '2', '3', ' ', '\n'}) ok = either(ok, c == (T)x);
  return either(ok, both(both(v >= (T)'A', v <= (T)'Z'), c == (T)(v + 32)));
}
template <typename T> void descend(T root, T v, int depth) {
  if (depth > 12) { CHECK(false, "chains of character shrinks end"); return; }
  auto s = shrink::character<T>(v);
  for (int i = 0;; i++) {
    auto m = s.next();
    if (!m) return;
    if (i > 20) { CHECK(false, "a character has finitely many shrinks"); return; }
    T c = *m;
    CHECK(c != v, "a character never shrinks to itself");
    CHECK(c != root, "shrinking a character never leads back to it");
    CHECK(simple(c, v), "a character only shrinks to a simpler one");
    if (depth < sym_param("depth", 12)) descend<T>(root, c, depth + 1);
  }
}
} // namespace
ENTRY(c06_chunks_vector) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 5));
  chunks(symColl<std::vector<int>>(n));
  COVER("chunks");
}
ENTRY(c06_chunks_string) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 5));
  chunks(symColl<std::string>(n));
  COVER("chunks");
}
// positions are distinguishable, longer collections
ENTRY(c06_chunks_long) {
  size_t n = (size_t)pick("n", 6, sym_param("n", 14));
  std::vector<int> v;
  int base = sym<int>("base");
  ASSUME(both(base >= 0, base <= 1000000));
  for (size_t i = 0; i < n; i++) v.push_back(base + (int)i);
  chunks(v);
  COVER("chunks");
}
ENTRY(c06_each_vector) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 4));
  each(symColl<std::vector<int>>(n));
  COVER("each");
}
ENTRY(c06_each_deque) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 3));
  each(symColl<std::deque<int8_t>>(n));
  COVER("each");
}
ENTRY(c06_each_string) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 4));
  each(symColl<std::string>(n));
  COVER("each");
}
// longer collections: all the elements after and before the one that shrinks have none of their own
ENTRY(c06_each_long) {
  size_t n = (size_t)pick("n", 5, sym_param("n", 16));
  size_t at = (size_t)pick("at", 0, (int64_t)n - 1);
  int a = sym<int>("a"), b = sym<int>("b");
  std::vector<int> v;
  for (size_t i = 0; i < n; i++) v.push_back(1000 + (int)i);
  auto s = shrink::eachElement(v, [=](int x) { return x == 1000 + (int)at ? seq::just(a, b) : Seq<int>(); });
  for (int want : {a, b}) {
    auto m = s.next();
    CHECK((bool)m, "every shrink of every element is offered");
    if (!m) return;
    auto w = v;
    w[at] = want;
    CHECK(same(*m, w), "a candidate replaces exactly one element by one of its own shrinks");
  }
  CHECK(!s.next(), "one candidate for every shrink of every element");
  COVER("each");
}
ENTRY(c06_nested) {
  // collections of collections: exactly one inner collection changes
  size_t n = (size_t)pick("n", 0, 2);
  std::vector<std::vector<int>> c;
  for (size_t i = 0; i < n; i++) c.push_back(symColl<std::vector<int>>((size_t)pick("inner", 0, 2)));
  auto s = shrink::eachElement(c, [](const std::vector<int> &v) { return shrink::removeChunks(v); });
  size_t total = 0, want = 0;
  for (auto &v : c) want += v.size() * (v.size() + 1) / 2;
  for (;;) {
    auto m = s.next();
    if (!m) break;
    total++;
    CHECK(m->size() == c.size(), "the number of elements is unchanged");
    if (m->size() != c.size() || total > 20) return;
    int changed = 0;
    for (size_t i = 0; i < n; i++) changed += (*m)[i].size() != c[i].size();
    CHECK(changed == 1, "exactly one element changes");
    for (size_t i = 0; i < n; i++)
      if ((*m)[i].size() == c[i].size()) CHECK(same((*m)[i], c[i]), "the other elements are unchanged");
  }
  CHECK(total >= 1 || want == 0, "shrinks of the elements are offered");
  COVER("nested");
}
ENTRY(c06_char) {
  char v = sym<char>("c");
  descend<char>(v, v, 0);
  COVER("char");
}
ENTRY(c06_wchar) {
  wchar_t v = sym<wchar_t>("c");
  descend<wchar_t>(v, v, 0);
  COVER("wchar");
}
