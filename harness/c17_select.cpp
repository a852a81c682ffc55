// C17: selection and filtering generators only yield legal choices.
#include <rapidcheck.h>
#include <algorithm>
#include <list>
#include "sym.h"
#include "common.h"
#include "rapidcheck/detail/FrequencyMap.h"
using namespace rc;
namespace {
const int kSizes[] = {0, 1, 2, 10, 33, 50, 99, 100, 101, 250};
int pickSize(int n = 9) { return kSizes[pick("size", 0, n)]; }
uint64_t word(const Random &r) { return Random(r).next(); }
template <typename T> bool fails(const Gen<T> &g, int size = 10) {
  try { g(h::rnd(1), size).value(); } catch (const GenerationFailure &) { return true; }
  return false;
}
// a list of arbitrary elements in one of several containers
template <typename C> void elementOf() {
  int n = (int)pick("n", 0, sym_param("n", 5));
  std::vector<uint32_t> e;
  for (int i = 0; i < n; i++) e.push_back(sym<uint32_t>("e"));
  C c(e.begin(), e.end());
  auto g = gen::elementOf(c);
  int size = pickSize(1);
  Random r = h::rnd(1);
  if (n == 0) { CHECK(fails(g, size), "an empty choice is a generation failure"); COVER("empty"); return; }
  auto s = g(r, size);
  uint32_t v = (uint32_t)s.value();
  unsigned in = 0;
  for (auto x : c) in |= (unsigned)(v == (uint32_t)x);
  CHECK(in, "only listed elements are selected");
  CHECK(!s.shrinks().next(), "selected elements have no shrinks");
  COVER("element");
}
// among distinct elements, n consecutive draws select each of them exactly once
void elementOfFair() {
  int n = (int)pick("n", 1, 6);
  std::string c;
  for (int i = 0; i < n; i++) c += (char)('a' + i);
  Gen<char> g = gen::elementOf(c);
  if (n == 3 && pick("direct", 0, 1)) g = gen::element('a', 'b', 'c');
  uint64_t base = (uint64_t)pick("base", 0, 3) * (uint64_t)n;
  int a = (int)pick("a", 0, n - 1), b = (int)pick("b", 0, n - 1);
  Random r1 = h::rnd(1), r2 = h::rnd(2);
  ASSUME(both(word(r1) == base + a, word(r2) == base + b));
  CHECK((g(r1, 10).value() == g(r2, 3).value()) == (a == b), "every element is selected equally often");
}
// sized selection: an initial segment that grows with the size
Gen<int> sizedGen(int n, int direct) {
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(10 + i);
  if (direct && n == 3) return gen::sizedElement(10, 11, 12);
  return gen::sizedElementOf(v);
}
void sized() {
  int n = (int)pick("n", 0, sym_param("n", 7)), size = pickSize();
  auto g = sizedGen(n, (int)pick("direct", 0, 1));
  Random r = h::rnd(1);
  if (n == 0) { CHECK(fails(g, size), "an empty choice is a generation failure"); return; }
  auto s = g(r, size);
  int i = (int)sym_conc((uint64_t)(s.value() - 10));
  CHECK(i >= 0 && i < n, "only listed elements are selected");
  if (size == 0) CHECK(i == 0, "at size zero the first element is selected");
  // the segment is the scaled one
  int max = (int)gen::detail::scaleInteger((uint64_t)(n - 1), size);
  CHECK(i <= max, "the selected element lies in the segment for the size");
  // shrinks select earlier elements, the first one first
  auto seq = s.shrinks();
  bool any = false, before = false;
  int prev = -1;
  for (int k = 0; k < 20; k++) {
    auto c = seq.next();
    if (!c) break;
    int j = c->value() - 10;
    if (!any) CHECK(j == 0, "the first shrink is the first element");
    CHECK(j >= 0 && j < i && j > prev, "shrinks are earlier elements");
    prev = j;
    any = true;
    before = before || j == i - 1;
    for (auto x : h::shrinkValues(*c)) CHECK(x >= 10 && x < 10 + j, "shrinks of shrinks are earlier elements");
  }
  CHECK(any == (i > 0), "exactly the first element has no shrinks");
  CHECK(before == (i > 0), "the previous element is always offered");
  COVER("sized");
}
void sizedReach() {
  int n = (int)pick("n", 1, sym_param("n", 7)), size = pickSize();
  int max = (int)gen::detail::scaleInteger((uint64_t)(n - 1), size) + 1;
  int a = (int)pick("a", 0, max - 1), b = (int)pick("b", 0, max - 1);
  Random r1 = h::rnd(1), r2 = h::rnd(2);
  ASSUME(both(word(r1) == (uint64_t)a, word(r2) == (uint64_t)b));
  auto g = sizedGen(n, 0);
  CHECK((g(r1, size).value() == g(r2, size).value()) == (a == b), "every element of the segment can be selected");
}
// many elements: the segment grows by one with every size
// more than a handful of alternatives: all of them are selected, equally often
void oneOfMany() {
  auto j = [](int i) { return gen::just(i); };
  int kind = (int)pick("kind", 0, 2);
  Gen<int> g = kind == 0 ? gen::oneOf(j(0), j(1), j(2), j(3), j(4), j(5), j(6), j(7), j(8), j(9), j(10), j(11))
    : kind == 1 ? gen::weightedOneOf<int>({{1, j(0)}, {1, j(1)}, {1, j(2)}, {1, j(3)}, {1, j(4)}, {1, j(5)}, {1, j(6)}, {1, j(7)}, {1, j(8)}, {1, j(9)}, {1, j(10)}, {1, j(11)}})
    : gen::element(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
  static const int kFrom[] = {3, 11};
  int a = kFrom[pick("a", 0, 1)], b = (a + (pick("far", 0, 1) ? 8 : 1)) % 12;
  Random r1 = h::rnd(1), r2 = h::rnd(2);
  // whichever of the first words decides
  ASSUME(both(word(r1) == (uint64_t)a, word(r2) == (uint64_t)(12 + b)));
  ASSUME(both(word(Random(r1).split()) == (uint64_t)a, word(Random(r2).split()) == (uint64_t)(12 + b)));
  CHECK((g(r1, 10).value() == g(r2, 3).value()) == (a == b), "every alternative is selected equally often");
}
void sizedMany() {
  static const int kMore[] = {0, 1, 2, 7, 10, 33, 50, 66, 99, 100, 101};
  int size = kMore[pick("size", 0, 10)];
  Random r = h::rnd(1);
  ASSUME(word(r) < 1024);
  int i = sizedGen(101, 0)(r, size).value() - 10;
  CHECK(both(i >= 0, i <= std::min(size, 100)), "the selected element lies in the segment for the size");
}
// weights
void weighted() {
  uint64_t w[3];
  for (auto &x : w) x = (uint64_t)range("weight", 0, 1ll << 60);
  auto g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}});
  Random r = h::rnd(1);
  if (either(either(w[0] != 0, w[1] != 0), w[2] != 0)) {
    rc::detail::FrequencyMap m({w[0], w[1], w[2]});
    CHECK(m.sum() == w[0] + w[1] + w[2], "the weights are summed");
    uint64_t x = sym<uint64_t>("x");
    ASSUME(x < m.sum());
    uint64_t i = m.lookup(x);
    CHECK(i < 3, "only listed entries are selected");
    i = sym_conc(i);
    if (i < 3) CHECK(w[i] != 0, "an entry of weight zero is never selected");
    COVER("weighted");
  } else {
    CHECK(fails(g), "a choice without any weight is a generation failure");
    COVER("no weight");
  }
}
void weightedGen() {
  int w[3];
  for (auto &x : w) x = (int)pick("weight", 0, 3);
  auto g = gen::weightedElement<int>({{(size_t)w[0], 0}, {(size_t)w[1], 1}, {(size_t)w[2], 2}});
  if (w[0] + w[1] + w[2] == 0) { CHECK(fails(g), "a choice without any weight is a generation failure"); return; }
  Random r = h::rnd(1);
  auto s = g(r, pickSize(1));
  int v = (int)sym_conc((uint64_t)s.value());
  CHECK(v >= 0 && v < 3 && w[v] != 0, "an entry of weight zero is never selected");
  CHECK(!s.shrinks().next(), "selected elements have no shrinks");
  COVER("weighted");
}
// over one full round of draws each entry is selected as often as its weight says
void weightedCount() {
  int w[3], sum = 0, seen[3] = {0, 0, 0};
  for (auto &x : w) { x = (int)pick("weight", 0, 3); sum += x; }
  if (sum == 0) return;
  auto g = gen::weightedElement<int>({{(size_t)w[0], 0}, {(size_t)w[1], 1}, {(size_t)w[2], 2}});
  for (int i = 0; i < sum; i++) {
    Random r = h::rnd((uint64_t)i);
    ASSUME(word(r) == (uint64_t)i + 7 * (uint64_t)sum);
    int v = g(r, 10).value();
    CHECK(v >= 0 && v < 3, "only listed entries are selected");
    if (v >= 0 && v < 3) seen[v]++;
  }
  for (int i = 0; i < 3; i++) CHECK(seen[i] == w[i], "each entry is selected with the frequency given by its weight");
  COVER("count");
}
void weightedNone() {
  auto g = gen::weightedElement<int>({});
  CHECK(fails(g), "an empty choice is a generation failure");
  CHECK(fails(gen::weightedOneOf<int>({})), "an empty choice is a generation failure");
  CHECK(fails(gen::weightedOneOf<int>({{(size_t)0, gen::just(1)}})), "a choice without any weight is a generation failure");
}
// delegating to one of several generators
struct Call { int which, size; uint64_t value; };
std::vector<Call> calls;
Gen<uint64_t> branch(int which) {
  return Gen<uint64_t>([=](const Random &r, int size) {
    Random c(r);
    uint64_t v = c.split().next() * 4 + which;
    c.next();
    calls.push_back(Call{which, size, v});
    return shrinkable::just(v, seq::just(shrinkable::just(v + 1), shrinkable::just(v + 2)));
  });
}
void oneOf() {
  int kind = (int)pick("kind", 0, 4), size = pickSize();
  size_t w = (size_t)pick("weight", 0, 2);
  Gen<uint64_t> g = kind == 0 ? gen::oneOf(branch(0)) : kind == 1 ? gen::oneOf(branch(0), branch(1), branch(2)) : kind == 2 ? gen::weightedOneOf<uint64_t>({{w, branch(0)}, {(size_t)1, branch(1)}, {(size_t)0, branch(2)}})
    : kind == 3 ? gen::sizedOneOf(branch(0), branch(1), branch(2)) : gen::sizedOneOf(branch(0));
  calls.clear();
  auto s = g(h::rnd(1), size);
  uint64_t v = s.value();
  CHECK(!calls.empty(), "one of the generators is used");
  for (auto &c : calls) {
    CHECK(c.which == calls[0].which, "one generator is used");
    CHECK(c.size == size, "the chosen generator is run at the same size");
  }
  int i = calls[0].which;
  CHECK(v == calls[0].value, "the value is that of the chosen generator");
  if (kind == 2) CHECK(i == 1 || (i == 0 && w > 0), "a generator of weight zero is never chosen");
  if (kind == 3) CHECK(i <= (int)gen::detail::scaleInteger(2, size), "the chosen generator lies in the segment for the size");
  if (kind == 0 || kind == 4) CHECK(i == 0, "the only generator is chosen");
  CHECK(sym_words_used == 3, "the chosen generator has a random stream of its own");
  if (kind < 3) { // sized choices also shrink towards earlier generators
    auto t = h::shrinkValues(s);
    CHECK(t.size() == 2, "the shrinks are those of the chosen generator");
    if (t.size() == 2) CHECK(both(t[0] == v + 1, t[1] == v + 2), "the shrinks are those of the chosen generator");
  }
  switch (i) {
  case 0: COVER("first"); break;
  case 1: COVER("second"); break;
  default: COVER("third"); break;
  }
}
// filtering
std::vector<int> sizes;
std::vector<Random> streams;
Shrinkable<uint8_t> down(uint8_t x, int depth) {
  return shrinkable::shrink([=] { return x; }, [=](uint8_t y) {
    if (depth == 0) return Seq<Shrinkable<uint8_t>>();
    return seq::just(down((uint8_t)(y / 2), depth - 1), down((uint8_t)(y - 1), depth - 1));
  });
}
void same(const Shrinkable<uint8_t> &f, const Shrinkable<uint8_t> &s, bool (*p)(uint8_t, uint8_t), uint8_t t, int depth) {
  CHECK(f.value() == s.value(), "filtering keeps the values");
  CHECK(p(f.value(), t), "values and shrinks satisfy the predicate");
  if (depth == 0) return;
  auto a = f.shrinks(), b = s.shrinks();
  for (;;) {
    auto y = b.next();
    while (y && !p(y->value(), t)) y = b.next();
    auto x = a.next();
    CHECK((bool)x == (bool)y, "the shrinks are those that satisfy the predicate");
    if (!x || !y) return;
    same(*x, *y, p, t, depth - 1);
  }
}
bool less(uint8_t x, uint8_t t) { return x < t; }
bool bits(uint8_t x, uint8_t t) { return (x & t) != 0; }
bool differs(uint8_t x, uint8_t t) { return x != t; }
void suchThat() {
  int kind = (int)pick("kind", 0, 2), size = pickSize(8);
  uint8_t t = sym<uint8_t>("threshold");
  auto p = kind == 0 ? less : kind == 1 ? bits : differs;
  std::vector<uint8_t> seen;
  sizes.clear();
  streams.clear();
  Gen<uint8_t> src([&](const Random &r, int s) {
    sizes.push_back(s);
    streams.push_back(r);
    seen.push_back((uint8_t)Random(r).next());
    return down(seen.back(), 2);
  });
  Gen<uint8_t> g = kind == 2 ? gen::distinctFrom(src, t) : gen::suchThat(src, [=](uint8_t x) { return p(x, t); });
  int tries = (int)sym_param("tries", 4);
  // all words beyond the first few are those of the real stream
  Maybe<Shrinkable<uint8_t>> s;
  bool failed = false;
  uint8_t v = 0;
  s = g(h::rnd(1), size);
  try { v = s->value(); } catch (const GenerationFailure &) { failed = true; }
  CHECK(!sizes.empty() && sizes[0] == size, "the first try is made at the requested size");
  for (size_t i = 1; i < sizes.size(); i++) CHECK(sizes[i] > sizes[i - 1], "the size grows with every retry");
  for (size_t i = 0; i < streams.size(); i++)
    for (size_t j = i < 12 ? 0 : i - 1; j < i; j++) CHECK(!(streams[i] == streams[j]), "every retry has a random stream of its own");
  if (failed) {
    CHECK(sizes.size() > 10, "generation fails only after retrying");
    CHECK(sizes.size() <= 1000, "the number of tries is bounded");
    for (auto x : seen) CHECK(!p(x, t), "generation fails only if no try satisfied the predicate");
    COVER("failure");
    return;
  }
  for (size_t i = 0; i + 1 < seen.size(); i++) CHECK(!p(seen[i], t), "the first value that satisfies the predicate is used");
  CHECK(v == seen.back(), "the generated value is used");
  if ((int)sizes.size() > tries) return;
  same(*s, down(seen.back(), 2), p, t, 2);
  COVER("value");
}
void nonEmpty() {
  int n = 0;
  Gen<std::vector<uint8_t>> src([&](const Random &r, int) {
    n++;
    std::vector<uint8_t> v;
    uint64_t k = sym_conc(Random(r).next() % 3);
    for (uint64_t i = 0; i < k; i++) v.push_back(7);
    return shrinkable::shrinkRecur(v, [](const std::vector<uint8_t> &x) { return shrink::removeChunks(x); });
  });
  Gen<std::vector<uint8_t>> g = gen::nonEmpty(src);
  auto s = g(h::rnd(1), 3);
  try {
    CHECK(!s.value().empty(), "values are not empty");
    for (auto &x : h::shrinkValues(s)) CHECK(!x.empty(), "shrinks are not empty");
  } catch (const GenerationFailure &) { CHECK(n > 10, "generation fails only after retrying"); }
  COVER("value");
}
// optional values
void checkMaybe(const Shrinkable<Maybe<uint8_t>> &s, const Shrinkable<uint8_t> &in, int depth) {
  auto v = s.value();
  CHECK(v && *v == in.value(), "the value is that of the generator");
  auto a = s.shrinks();
  auto b = in.shrinks();
  auto f = a.next();
  CHECK(f && !f->value(), "absence is the first shrink");
  if (f) CHECK(!f->shrinks().next(), "absence has no shrinks");
  if (depth == 0) return;
  for (;;) {
    auto x = a.next();
    auto y = b.next();
    CHECK((bool)x == (bool)y, "the other shrinks are those of the value");
    if (!x || !y) return;
    checkMaybe(*x, *y, depth - 1);
  }
}
void maybe() {
  int size = pickSize(), calls = 0;
  Shrinkable<uint8_t> in = down(0, 0);
  Gen<uint8_t> src([&](const Random &r, int s) {
    calls++;
    CHECK(s == size, "the generator is run at the same size");
    Random c(r);
    uint8_t v = (uint8_t)c.split().next();
    c.next();
    in = down(v, 2);
    return in;
  });
  Gen<Maybe<uint8_t>> g = gen::maybe(src);
  auto s = g(h::rnd(1), size);
  if (!s.value()) {
    CHECK(!s.shrinks().next(), "absence has no shrinks");
    COVER("nothing");
    return;
  }
  CHECK(calls == 1, "the generator is run once");
  CHECK(sym_words_used == 3, "the value has a random stream of its own");
  checkMaybe(s, in, 2);
  COVER("just");
}
} // namespace
ENTRY(c17_element_vector) { elementOf<std::vector<uint32_t>>(); if (0) { COVER("element"); COVER("empty"); } }
ENTRY(c17_element_list) { elementOf<std::list<uint32_t>>(); if (0) COVER("element"); }
ENTRY(c17_element_string) { elementOf<std::u32string>(); if (0) COVER("element"); }
ENTRY(c17_element_fair) { elementOfFair(); COVER("fair"); }
ENTRY(c17_sized) { sized(); if (0) COVER("sized"); }
ENTRY(c17_sized_reach) { sizedReach(); COVER("reach"); }
ENTRY(c17_sized_many) { sizedMany(); COVER("many"); }
ENTRY(c17_weights) { weighted(); if (0) { COVER("weighted"); COVER("no weight"); } }
ENTRY(c17_weighted) { weightedGen(); if (0) COVER("weighted"); }
ENTRY(c17_weighted_count) { weightedCount(); if (0) COVER("count"); }
ENTRY(c17_weighted_none) { weightedNone(); COVER("none"); }
ENTRY(c17_one_of) { oneOf(); if (0) { COVER("first"); COVER("second"); COVER("third"); } }
ENTRY(c17_one_of_many) { oneOfMany(); COVER("many"); }
ENTRY(c17_such_that) { suchThat(); if (0) { COVER("value"); COVER("failure"); } }
ENTRY(c17_non_empty) { nonEmpty(); if (0) COVER("value"); }
ENTRY(c17_maybe) { maybe(); if (0) { COVER("nothing"); COVER("just"); } }
