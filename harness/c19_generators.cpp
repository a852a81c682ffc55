// C19: generators are pure, and composition obeys its meaning.
#include <rapidcheck.h>
#include <array>
#include <chrono>
#include <list>
#include <memory>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
const int kSizes[] = {0, 1, 7, 50, 100, 1000};
int pickSize() { return kSizes[pick("size", 0, 5)]; }
using U = uint32_t;
struct Call { int id, size; U v; };
std::vector<Call> calls;
// depth-limited tree below a value: 2v+id, v^1
Shrinkable<U> tree(U v, int id, int depth) {
  return shrinkable::shrink([=] { return v; }, [=](U x) {
    if (depth == 0) return Seq<Shrinkable<U>>();
    return seq::just(tree(2 * x + (U)id, id, depth - 1), tree(x ^ 1u, id, depth - 1));
  });
}
// an arbitrary source: reads two positions of its stream
Gen<U> src(int id, int depth = 2) {
  return Gen<U>([=](const Random &r, int size) {
    Random c(r);
    U v = (U)(c.split().next() ^ c.next()) + (U)size;
    calls.push_back(Call{id, size, v});
    return tree(v, id, depth);
  });
}
// both trees are equal down to a depth
template <typename T> bool same(const T &a, const T &b) { return a == b; }
bool same(const std::string &a, const std::string &b) { return eqStr(a, b); }
template <typename T> bool same(const std::unique_ptr<T> &a, const std::unique_ptr<T> &b) { return *a == *b; }
template <typename T> bool same(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b) { return *a == *b; }
template <typename T, typename V> void equalTrees(const Shrinkable<T> &a, const Shrinkable<V> &b, int depth, const char *msg) {
  CHECK(same(a.value(), b.value()), msg);
  if (depth == 0) return;
  auto s = a.shrinks();
  auto t = b.shrinks();
  for (int i = 0; i < 60; i++) {
    auto x = s.next();
    auto y = t.next();
    CHECK((bool)x == (bool)y, msg);
    if (!x || !y) return;
    equalTrees(*x, *y, depth - 1, msg);
  }
}
// invoked twice with other generation in between
template <typename T> void pure(const Gen<T> &g, int size, int depth = 2) {
  Random r = h::rnd(1), before(r);
  auto a = g(r, size);
  CHECK(r == before, "the caller's random state is not disturbed");
  Random o = h::rnd(2);
  auto other = g(o, size + 3);
  (void)other.value();
  if (depth) { auto x = h::shrinkAt(other, 1); if (x) (void)x->value(); }
  Gen<T> copy(g);
  auto b = copy(r, size);
  CHECK(r == before, "the caller's random state is not disturbed");
  equalTrees(a, b, depth, "the same stream and size give the same shrink tree");
  // reading a tree twice gives the same as well
  if (depth) equalTrees(a, a, 1, "a shrink tree is the same every time it is read");
  COVER("pure");
}
void check(int id, int size, const char *msg) {
  for (auto &c : calls) if (c.id == id) CHECK(c.size == size, msg);
}
U valueOf(int id) {
  for (auto &c : calls) if (c.id == id) return c.v;
  CHECK(false, "every component is generated");
  return 0;
}
void independent(int n) { CHECK(sym_words_used == 2 * (uint64_t)n, "components have random streams of their own"); }
struct P {
  U x = 1, y = 2, z = 3;
  void setY(U v) { y = v; }
  void setYZ(U a, U b) { y = a; z = b; }
  bool operator==(const P &o) const { return x == o.x && y == o.y && z == o.z; }
  P() {}
  P(U a, U b) : x(a), y(b) {}
};
} // namespace
// meaning
ENTRY(c19_map) {
  int size = pickSize();
  U k = sym<U>("k");
  auto g = pick("apply", 0, 1) ? gen::apply([=](U x) { return (uint64_t)(x ^ k); }, src(1)) : gen::map(src(1), [=](U x) { return (uint64_t)(x ^ k); });
  auto s = g(h::rnd(1), size);
  (void)s.value();
  equalTrees(s, shrinkable::map(tree(valueOf(1), 1, 2), [=](U x) { return (uint64_t)(x ^ k); }), 2, "mapped values are the function of the source value");
  check(1, size, "the source is generated at the prescribed size");
  COVER("map");
}
ENTRY(c19_cast) {
  int size = pickSize();
  auto g = gen::cast<uint8_t>(src(1));
  auto s = g(h::rnd(1), size);
  equalTrees(s, shrinkable::map(tree(valueOf(1), 1, 2), [](U x) { return (uint8_t)x; }), 2, "cast values are the cast source value");
  check(1, size, "the source is generated at the prescribed size");
  COVER("cast");
}
// the first component's shrinks come first, one component changes at a time
static void tupleTree(const Shrinkable<std::tuple<U, U, U>> &s, const Shrinkable<U> &a, const Shrinkable<U> &b, const Shrinkable<U> &c, int depth) {
  CHECK(s.value() == std::make_tuple(a.value(), b.value(), c.value()), "the components are those of the generators, in order");
  if (depth == 0) return;
  auto seq = s.shrinks();
  for (int part = 0; part < 3; part++) {
    auto t = (part == 0 ? a : part == 1 ? b : c).shrinks();
    for (;;) {
      auto y = t.next();
      if (!y) break;
      auto x = seq.next();
      CHECK((bool)x, "every shrink of every component is offered");
      if (!x) return;
      tupleTree(*x, part == 0 ? *y : a, part == 1 ? *y : b, part == 2 ? *y : c, depth - 1);
    }
  }
  CHECK(!seq.next(), "only shrinks of components are offered");
}
ENTRY(c19_tuple) {
  int size = pickSize();
  auto s = gen::tuple(src(1), src(2), src(3))(h::rnd(1), size);
  (void)s.value();
  for (int i = 1; i <= 3; i++) check(i, size, "components are generated at the prescribed size");
  independent(3);
  tupleTree(s, tree(valueOf(1), 1, 2), tree(valueOf(2), 2, 2), tree(valueOf(3), 3, 2), 2);
  COVER("tuple");
}
// many components: each is drawn from a stream of its own
ENTRY(c19_tuple_wide) {
  std::vector<Random> seen;
  auto g = [&](int id) {
    return Gen<U>([&seen, id](const Random &r, int size) {
      CHECK(size == 20, "components are generated at the prescribed size");
      for (auto &x : seen) CHECK(!(x == r), "components get independent streams");
      seen.push_back(r);
      return tree((U)(Random(r).next() & 0xff) + (U)id, id, 1);
    });
  };
  size_t n = 0;
  bool shrinks = false;
  switch (pick("kind", 0, 2)) {
  case 0: {
    auto s = gen::tuple(g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9), g(10), g(11), g(12))(h::rnd(1), 20);
    n = 12;
    auto v = s.value();
    auto x = h::shrinkAt(s, 21);
    auto w = x ? x->value() : v;
    shrinks = x && std::get<10>(w) != std::get<10>(v) && std::get<9>(w) == std::get<9>(v) && std::get<11>(w) == std::get<11>(v) && !h::shrinkAt(s, 24);
    break;
  }
  case 1: {
    auto f = [](U a, U b, U c, U d, U e, U f2, U g2, U h2) { return std::vector<U>{a, b, c, d, e, f2, g2, h2}; };
    auto s = gen::apply(f, g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8))(h::rnd(1), 20);
    n = 8;
    auto v = s.value(), w = v;
    auto x = h::shrinkAt(s, 15);
    if (x) w = x->value();
    shrinks = x && v[7] != w[7] && std::equal(v.begin(), v.begin() + 7, w.begin()) && !h::shrinkAt(s, 16);
    break;
  }
  default: {
  
    auto s = gen::construct<std::array<U, 9>>(g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8), g(9))(h::rnd(1), 20);
    n = 9;
    auto v = s.value(), w = v;
    auto x = h::shrinkAt(s, 1);
    if (x) w = x->value();
    shrinks = x && v[0] != w[0] && std::equal(v.begin() + 1, v.end(), w.begin() + 1) && !h::shrinkAt(s, 18);
  }
  }
  CHECK(seen.size() == n, "components get independent streams");
  CHECK(shrinks, "every component shrinks on its own, in order");
  COVER("wide");
}
ENTRY(c19_tuple_small) {
  int size = pickSize();
  auto e = gen::tuple()(h::rnd(1), size);
  CHECK(!e.shrinks().next(), "an empty tuple has no shrinks");
  auto s = gen::tuple(src(1))(h::rnd(1), size);
  (void)s.value();
  check(1, size, "components are generated at the prescribed size");
  equalTrees(s, shrinkable::map(tree(valueOf(1), 1, 2), [](U x) { return std::make_tuple(x); }), 2, "a tuple of one component shrinks like it");
  COVER("tuple");
}
// pairs, built objects and applied functions are functions of the tuple of their parts
template <typename T, typename F> static void twoParts(const Gen<T> &g, F f) {
  int size = pickSize();
  auto s = g(h::rnd(1), size);
  auto first = s.value();
  U a = valueOf(1), b = valueOf(2);
  check(1, size, "components are generated at the prescribed size");
  check(2, size, "components are generated at the prescribed size");
  independent(2);
  auto want = shrinkable::map(shrinkable::pair(tree(a, 1, 2), tree(b, 2, 2)), [=](const std::pair<U, U> &p) { return f(p.first, p.second); });
  equalTrees(s, want, 2, "composed values are made of the values of their parts");
  COVER("parts");
}
ENTRY(c19_pair) { twoParts(gen::pair(src(1), src(2)), [](U a, U b) { return std::make_pair(a, b); }); COVER("pair"); }
ENTRY(c19_apply) { twoParts(gen::apply([](U a, U b) { return a - 3 * b; }, src(1), src(2)), [](U a, U b) { return a - 3 * b; }); COVER("apply"); }
ENTRY(c19_construct) { twoParts(gen::construct<P>(src(1), src(2)), [](U a, U b) { return P(a, b); }); COVER("construct"); }
ENTRY(c19_make_unique) { twoParts(gen::makeUnique<P>(src(1), src(2)), [](U a, U b) { return std::unique_ptr<P>(new P(a, b)); }); COVER("unique"); }
ENTRY(c19_make_shared) { twoParts(gen::makeShared<P>(src(1), src(2)), [](U a, U b) { return std::make_shared<P>(a, b); }); COVER("shared"); }
ENTRY(c19_build) {
  switch (pick("kind", 0, 3)) {
  case 0: twoParts(gen::build<P>(gen::set(&P::x, src(1)), gen::set(&P::setY, src(2))), [](U a, U b) { P p; p.x = a; p.y = b; return p; }); break;
  case 1: twoParts(gen::build<P>(gen::set(&P::setYZ, gen::tuple(gen::just((U)5), src(1))), gen::set(&P::x, src(2))), [](U a, U b) { P p; p.x = b; p.y = 5; p.z = a; return p; }); break;
  case 2: twoParts(gen::build(gen::construct<P>(src(1), gen::just((U)9)), gen::set(&P::z, src(2))), [](U a, U b) { P p(a, 9); p.z = b; return p; }); break;
  default: twoParts(gen::build(gen::makeUnique<P>(), gen::set(&P::x, src(1)), gen::set(&P::y, src(2))), [](U a, U b) { std::unique_ptr<P> p(new P()); p->x = a; p->y = b; return p; }); break;
  }
  COVER("build");
}
// dependent generation
ENTRY(c19_mapcat) {
  int size = pickSize();
  bool join = pick("join", 0, 1) != 0;
  struct Inner {
    static Gen<U> of(U x) {
      return Gen<U>([=](const Random &r, int s) {
        Random c(r);
        U v = (U)(c.split().next() ^ c.next());
        calls.push_back(Call{100, s, v});
        return tree(v + 5 * x, 2, 1);
      });
    }
  };
  Gen<U> g = join ? gen::join(gen::map(src(1), [](U x) { return Inner::of(x); })) : gen::mapcat(src(1), [](U x) { return Inner::of(x); });
  auto s = g(h::rnd(1), size);
  (void)s.value();
  U a = valueOf(1), i = valueOf(100);
  auto want = shrinkable::mapcat(tree(a, 1, 2), [=](U x) { return tree(i + 5 * x, 2, 1); });
  equalTrees(s, want, 2, "the inner generator depends on the outer value and keeps its stream while it shrinks");
  check(1, size, "the outer generator runs at the prescribed size");
  check(100, size, "the inner generator runs at the prescribed size");
  independent(2);
  COVER("mapcat");
}
ENTRY(c19_sizes) {
  int size = pickSize(), kind = (int)pick("kind", 0, 7), want = size;
  Gen<U> g = src(1);
  switch (kind) {
  case 0: want = sym<int>("resize"); ASSUME(want >= 0); g = gen::resize(want, src(1)); break;
  case 1: want = size / 2; g = gen::scale(0.5, src(1)); break;
  case 2: want = size * 3; g = gen::scale(3.0, src(1)); break;
  case 3: want = 0; g = gen::scale(0.0, src(1)); break;
  case 4: g = gen::withSize([&](int s) { CHECK(s == size, "withSize passes the size on"); return src(1); }); break;
  case 5: g = gen::lazy([] { return src(1); }); break;
  case 6: want = 5; g = gen::scale(2.0, gen::resize(5, src(1))); break;
  default: want = 10; g = gen::resize(5, gen::scale(2.0, src(1))); break;
  }
  auto s = g(h::rnd(1), size);
  (void)s.value();
  check(1, want, "the generator runs at the prescribed size");
  U direct = src(2)(h::rnd(1), want).value();
  CHECK(valueOf(1) == direct, "the generator is run on the same stream");
  equalTrees(s, tree(direct, 1, 2), 2, "values and shrinks are those of the generator");
  COVER("sizes");
}
ENTRY(c19_no_shrink) {
  int size = pickSize();
  auto s = gen::noShrink(src(1))(h::rnd(1), size);
  U v = s.value();
  CHECK(v == valueOf(1), "the value is that of the generator");
  CHECK(!s.shrinks().next(), "unshrinkable results have no shrinks");
  check(1, size, "the generator runs at the prescribed size");
  U x = sym<U>("x");
  auto j = gen::just(x)(h::rnd(2), size);
  CHECK(j.value() == x && !j.shrinks().next(), "a constant is generated without shrinks");
  COVER("done");
}
// additional shrinks come after the original ones, at every level
ENTRY(c19_shrink) {
  int size = pickSize();
  auto more = [](U x) { return seq::just(x + 11, x * 2); };
  auto s = gen::shrink(src(1), more)(h::rnd(1), size);
  (void)s.value();
  equalTrees(s, shrinkable::postShrink(tree(valueOf(1), 1, 2), more), 2, "additional shrinks follow the original ones");
  COVER("shrink");
}
ENTRY(c19_name) {
  int size = pickSize();
  std::string name("n");
  name += sym<char>("c");
  auto g = src(1);
  auto n = g.as(name);
  CHECK(eqStr(n.name(), name) && g.name().empty(), "naming a generator leaves the original alone");
  Gen<U> m = n;
  CHECK(eqStr(m.name(), name), "copies keep the name");
  equalTrees(n(h::rnd(1), size), g(h::rnd(1), size), 2, "naming does not change what is generated");
  COVER("name");
}
ENTRY(c19_exception) {
  // an exception is delivered when the value is asked for
  int size = pickSize();
  auto g = gen::map(Gen<U>([](const Random &, int) -> Shrinkable<U> { throw 7; }), [](U x) { return x; });
  auto s = g(h::rnd(1), size);
  int got = 0;
  try { s.value(); } catch (int x) { got = x; }
  CHECK(got == 7, "a generator that throws gives a value that throws the same");
  COVER("exception");
}
// what is generated by default is what the generators of the parts give
namespace {
struct A { U v; };
bool operator==(const A &a, const A &b) { return a.v == b.v; }
bool operator<(const A &a, const A &b) { return a.v < b.v; }
Gen<A> genA() { return gen::map(src(1, 1), [](U v) { return A{v}; }); }
struct Q { A a, b; Q() : a{7}, b{8} {} Q(A x, A y) : a(x), b(y) {} };
bool operator==(const Q &a, const Q &b) { return both(a.a == b.a, a.b == b.b); }
int partsSize;
template <typename G, typename W> void alike(const G &g, const W &want, int depth = 2) {
  auto a = g(h::rnd(1), partsSize);
  auto b = want(h::rnd(1), partsSize);
  equalTrees(a, b, depth, "the default generator is the one composed of the generators of its parts");
  COVER("default");
}
} // namespace
namespace rc {
template <> struct Arbitrary<A> { static Gen<A> arbitrary() { return genA(); } };
} // namespace rc
ENTRY(c19_defaults) {
  partsSize = kSizes[pick("size", 0, 1)];
  auto g = genA();
  auto odd = [](const A &a) { return (a.v & 1) != 0; };
  using D = std::chrono::duration<int8_t, std::milli>;
  using T = std::chrono::time_point<std::chrono::system_clock, D>;
  switch (pick("kind", 0, 13)) {
  case 0: alike(gen::arbitrary<std::pair<A, A>>(), gen::pair(g, g)); break;
  case 1: alike(gen::arbitrary<std::tuple<A, A, A>>(), gen::tuple(g, g, g)); break;
  case 2: alike(gen::arbitrary<Maybe<A>>(), gen::maybe(g)); break;
  case 3: alike(gen::arbitrary<std::array<A, 2>>(), gen::container<std::array<A, 2>>(g)); break;
  case 4: alike(gen::map<A>([](const A &a) { return a.v ^ 5; }), gen::map(g, [](const A &a) { return a.v ^ 5; })); break;
  case 5: alike(gen::suchThat<A>(odd), gen::suchThat(g, odd)); break;
  case 6: alike(gen::construct<Q, A, A>(), gen::construct<Q>(g, g)); break;
  case 7: alike(gen::build<Q>(gen::set(&Q::b)), gen::build<Q>(gen::set(&Q::b, g))); break;
  case 8: alike(gen::arbitrary<D>(), gen::map(gen::arbitrary<int8_t>(), [](int8_t x) { return D(x); }), 1); break;
  case 9: alike(gen::arbitrary<T>(), gen::map(gen::arbitrary<int8_t>(), [](int8_t x) { return T(D(x)); }), 1); break;
  case 10: alike(gen::arbitrary<std::vector<A>>(), gen::container<std::vector<A>>(g), 1); break;
  case 11: alike(gen::arbitrary<std::list<A>>(), gen::container<std::list<A>>(g), 1); break;
  case 12: alike(gen::nonEmpty<std::vector<A>>(), gen::nonEmpty(gen::container<std::vector<A>>(g)), 1); break;
  default: alike(gen::distinctFrom(A{3}), gen::distinctFrom(g, A{3})); break;
  }
}
// purity
#define PURE(name, depth, ...)                                                      \
  ENTRY(c19_pure_##name) { pure(__VA_ARGS__, kSizes[pick("size", 0, sym_param("sizes", 2))], depth); if (0) COVER("pure"); }
PURE(int, 2, gen::arbitrary<int>())
PURE(bool, 2, gen::arbitrary<bool>())
PURE(range, 2, gen::inRange<int>(-5, 300))
PURE(positive, 2, gen::positive<int8_t>())
PURE(string, 2, gen::arbitrary<std::string>())
PURE(char, 1, gen::character<char>())
PURE(vector, 2, gen::container<std::vector<bool>>(gen::arbitrary<bool>()))
PURE(set, 1, gen::container<std::set<U>>((size_t)2, gen::resize(100, gen::inRange<U>(0, 4))))
PURE(unique, 1, gen::unique<std::vector<uint8_t>>((size_t)2, gen::resize(100, gen::inRange<uint8_t>(0, 4))))
PURE(map, 2, gen::container<std::map<bool, bool>>((size_t)1, gen::arbitrary<bool>(), gen::arbitrary<bool>()))
PURE(maybe, 2, gen::maybe(src(1)))
PURE(element, 2, gen::elementOf(std::vector<int>{3, 5, 9}))
PURE(sized_element, 2, gen::sizedElement(3, 5, 9))
PURE(weighted, 2, gen::weightedElement<int>({{(size_t)1, 4}, {(size_t)3, 6}}))
PURE(one_of, 2, gen::oneOf(src(1), src(2)))
PURE(such_that, 2, gen::suchThat(src(1), [](U x) { return x % 2 == 0; }))
PURE(tuple, 2, gen::tuple(src(1), src(2), gen::arbitrary<bool>()))
PURE(pair, 2, gen::pair(src(1), gen::arbitrary<bool>()))
PURE(mapcat, 2, gen::mapcat(gen::inRange(0, 3), [](int n) { return gen::container<std::vector<U>>((size_t)(n & 1), src(1, 1)); }))
PURE(build, 2, gen::build<P>(gen::set(&P::x, src(1)), gen::set(&P::setY, src(2))))
PURE(make_unique, 2, gen::makeUnique<P>(src(1), src(2)))
PURE(make_shared, 2, gen::makeShared<P>(src(1), src(2)))
PURE(shared_build, 2, gen::build(gen::makeShared<P>(), gen::set(&P::x, src(1))))
PURE(no_shrink, 2, gen::noShrink(src(1)))
PURE(scale, 2, gen::scale(0.5, src(1)))
PURE(lazy, 2, gen::lazy([] { return src(1); }))
PURE(shrink, 2, gen::shrink(src(1), [](U x) { return seq::just(x + 1); }))
PURE(exec, 2, gen::exec([] { U a = *src(1); bool b = *gen::arbitrary<bool>(); return b ? a : a + 1; }))
PURE(real, 0, gen::arbitrary<float>())
