// C16: container generators produce what they promise, shrinks included.
#include <rapidcheck.h>
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
// an element remembers which draw it came from; it is identified by its key
struct El {
  int id;
  unsigned key;
};
bool operator<(const El &a, const El &b) { return a.key < b.key; }
bool operator==(const El &a, const El &b) { return a.key == b.key; }
struct Hash { size_t operator()(const El &) const { return 0; } };
// containers that tell fewer keys apart than the key's own comparison does
struct Less { bool operator()(const El &a, const El &b) const { return (a.key & 7) < (b.key & 7); } };
struct Same { bool operator()(const El &a, const El &b) const { return ((a.key ^ b.key) & 7) == 0; } };
using CSet = std::set<El, Less>;
using CUSet = std::unordered_set<El, Hash, Same>;
using CMap = std::map<El, El, Less>;
using CUMap = std::unordered_map<El, El, Hash, Same>;
using Map = std::map<El, El>;
using UMap = std::unordered_map<El, El, Hash>;
using MMap = std::multimap<El, El>;
using UMMap = std::unordered_multimap<El, El, Hash>;
using Set = std::set<El>;
using MSet = std::multiset<El>;
using USet = std::unordered_set<El, Hash>;
using UMSet = std::unordered_multiset<El, Hash>;

struct Draw { Random random; int size; unsigned key; };
std::vector<Draw> draws;
unsigned keyMask = 0xff;

Seq<unsigned> smaller(unsigned k) {
  if (k == 0) return Seq<unsigned>();
  if (k == 1) return seq::just(0u);
  return seq::just(0u, k - 1);
}
Gen<El> element() {
  return Gen<El>([](const Random &r, int size) {
    unsigned k = (unsigned)(Random(r).next() & keyMask);
    int id = (int)draws.size();
    draws.push_back(Draw{r, size, k});
    return shrinkable::shrinkRecur(El{id, k}, [](const El &e) {
      int i = e.id;
      return seq::map(smaller(e.key), [=](unsigned x) { return El{i, x}; });
    });
  });
}
// a container as a list of (key, value); the value is empty for non-maps
struct Item { El k, v; };
Item item(const El &e) { return Item{e, El{-1, 0}}; }
template <typename K, typename V> Item item(const std::pair<K, V> &p) { return Item{p.first, p.second}; }
template <typename C> std::vector<Item> items(const C &c) {
  std::vector<Item> v;
  for (const auto &e : c) v.push_back(item(e));
  return v;
}
const Item *find(const std::vector<Item> &v, int id) {
  for (auto &i : v) if (i.k.id == id) return &i;
  return nullptr;
}
template <typename C> struct Make { static Gen<C> sized() { return gen::container<C>(element()); } static Gen<C> fixed(size_t n) { return gen::container<C>(n, element()); } };
template <typename C> struct MakeMap { static Gen<C> sized() { return gen::container<C>(element(), element()); } static Gen<C> fixed(size_t n) { return gen::container<C>(n, element(), element()); } };
template <> struct Make<Map> : MakeMap<Map> {};
template <> struct Make<UMap> : MakeMap<UMap> {};
template <> struct Make<MMap> : MakeMap<MMap> {};
template <> struct Make<UMMap> : MakeMap<UMMap> {};
template <> struct Make<CMap> : MakeMap<CMap> {};
template <> struct Make<CUMap> : MakeMap<CUMap> {};

struct Rules {
  bool ordered;   // keeps the order of generation
  bool fixed;     // never changes its size
  unsigned mod;   // keys are distinct modulo this (0: no uniqueness)
  bool map;
};
unsigned keyOf(const Rules &r, unsigned k) { return r.mod == 256 ? k : (k & (r.mod - 1)); }
void distinct(const Rules &r, const std::vector<Item> &v) {
  if (r.mod == 0) return;
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < i; j++)
      CHECK(keyOf(r, v[i].k.key) != keyOf(r, v[j].k.key), "unique containers hold pairwise distinct elements");
}
bool isShrink(unsigned from, unsigned to) { return both(to < from, either(to == 0, to == from - 1)); }
// b is a legal shrink of a
void checkShrink(const Rules &r, const std::vector<Item> &a, const std::vector<Item> &b) {
  distinct(r, b);
  for (size_t i = 0; i < b.size(); i++)
    for (size_t j = 0; j < i; j++) CHECK(b[i].k.id != b[j].k.id, "no element is duplicated by shrinking");
  CHECK(b.size() <= a.size() && (!r.fixed || b.size() == a.size()), r.fixed ? "fixed-size containers keep their size" : "shrinking never adds elements");
  unsigned changed = 0, legal = 1;
  size_t first = a.size(), last = 0, kept = 0;
  for (size_t i = 0; i < a.size(); i++) {
    const Item *o = find(b, a[i].k.id);
    if (!o) { first = std::min(first, i); last = i; continue; }
    kept++;
    CHECK(o->v.id == a[i].v.id, "keys stay with their values");
    unsigned ck = (unsigned)(o->k.key != a[i].k.key), cv = (unsigned)(o->v.key != a[i].v.key);
    changed += ck + cv;
    legal &= (unsigned)implies(ck, isShrink(a[i].k.key, o->k.key));
    legal &= (unsigned)implies(cv, isShrink(a[i].v.key, o->v.key));
  }
  CHECK(kept == b.size(), "shrinking only keeps elements that were there");
  if (r.ordered) {
    for (size_t i = 1; i < b.size(); i++) CHECK(b[i - 1].k.id < b[i].k.id, "the order of elements is kept");
    if (b.size() < a.size()) CHECK(last - first + 1 == a.size() - b.size(), "the removed elements are consecutive");
  }
  if (b.size() < a.size()) CHECK(changed == 0, "removing elements leaves the others alone");
  else CHECK(both(changed == 1, legal), "exactly one element is replaced by one of its shrinks");
}
// everything that has to be offered below a is
void checkComplete(const Rules &r, const std::vector<Item> &a, const std::vector<std::vector<Item>> &all) {
  for (const Item &x : a) {
    if (!r.fixed) {
      bool found = false;
      for (auto &b : all) found = found || (b.size() + 1 == a.size() && !find(b, x.k.id));
      CHECK(found, "removing any single element is offered");
    }
    for (int part = 0; part < (r.map ? 2 : 1); part++) {
      unsigned from = part ? x.v.key : x.k.key;
      for (auto to : h::take(smaller(from))) {
        unsigned collides = 0;
        if (!part && r.mod)
          for (const Item &y : a)
            if (y.k.id != x.k.id) collides |= (unsigned)(keyOf(r, y.k.key) == keyOf(r, to));
        unsigned found = 0;
        for (auto &b : all) {
          if (b.size() != a.size()) continue;
          const Item *o = find(b, x.k.id);
          if (o) found |= (unsigned)((part ? o->v.key : o->k.key) == to);
        }
        CHECK(either(collides, found), "every shrink of an element that does not collide is offered");
      }
    }
  }
}
template <typename C> void checkTree(const Rules &r, const Shrinkable<C> &s, int depth) {
  auto a = items(s.value());
  auto seq = s.shrinks();
  std::vector<std::vector<Item>> all;
  for (int i = 0; i < 100; i++) {
    auto c = seq.next();
    if (!c) break;
    all.push_back(items(c->value()));
    checkShrink(r, a, all.back());
    if (depth > 1) checkTree(r, *c, depth - 1);
  }
  checkComplete(r, a, all);
}
// what is generated
template <typename C> void checkValue(const Rules &r, const std::vector<Item> &a, int size, size_t) {
  distinct(r, a);
  for (size_t i = 0; i < a.size(); i++) {
    for (int part = 0; part < (r.map ? 2 : 1); part++) {
      const El &e = part ? a[i].v : a[i].k;
      CHECK(e.id >= 0 && e.id < (int)draws.size(), "elements come from the element generator");
      const Draw &d = draws[e.id];
      CHECK(e.key == d.key, "elements come from the element generator");
      CHECK(r.mod ? d.size >= size : d.size == size, "elements are generated at the size of the container");
      for (size_t j = 0; j < i; j++) {
        CHECK(a[j].k.id != e.id && a[j].v.id != e.id, "every element is its own draw");
        CHECK(!(draws[a[j].k.id].random == d.random), "elements are drawn independently");
        if (r.map) CHECK(!(draws[a[j].v.id].random == d.random), "elements are drawn independently");
      }
      if (part) CHECK(!(draws[a[i].k.id].random == d.random), "elements are drawn independently");
    }
    if (r.ordered && i) CHECK(a[i - 1].k.id < a[i].k.id, "elements appear in the order they are drawn");
  }
}
template <typename C> void run(Gen<C> g, Rules r, int n, int count) {
  draws.clear();
  Random random = h::rnd(4);
  try {
    auto s = g(random, n);
    auto a = items(s.value());
    CHECK(r.fixed ? a.size() == (size_t)count : a.size() <= (size_t)n, r.fixed ? "the requested number of elements is generated" : "at most as many elements as the size");
    checkValue<C>(r, a, n, a.size());
    if (!r.fixed && a.size() == (size_t)n) COVER("full");
    if (!r.fixed && a.empty()) COVER("empty");
    COVER("value");
    checkTree(r, s, a.size() <= (size_t)sym_param("deep", 1) ? 2 : 1);
  } catch (const GenerationFailure &) {
    CHECK(r.mod != 0, "only uniqueness can fail");
    CHECK(draws.size() > 10, "generation fails only after retrying");
  }
}
template <typename C> void test(bool ordered, unsigned mod, bool map) {
  int n = (int)pick("size", 0, sym_param("n", 2));
  run(Make<C>::sized(), Rules{ordered, false, mod, map}, n, 0);
}
template <typename C> void fixedTest(bool ordered, unsigned mod, bool map) {
  int n = (int)pick("count", 0, sym_param("n", 2));
  int size = (int)pick("size", 0, 1) * 50;
  run(Make<C>::fixed((size_t)n), Rules{ordered, true, mod, map}, size, n);
}
} // namespace
#define T(name, C, ordered, mod, map)                                          \
  ENTRY(c16_##name) { test<C>(ordered, mod, map); }            \
  ENTRY(c16_fixed_##name) { fixedTest<C>(ordered, mod, map); }
T(vector, std::vector<El>, true, 0, false)
T(deque, std::deque<El>, true, 0, false)
T(list, std::list<El>, true, 0, false)
T(forward_list, std::forward_list<El>, true, 0, false)
T(set, Set, false, 256, false)
T(multiset, MSet, false, 0, false)
T(unordered_set, USet, false, 256, false)
T(unordered_multiset, UMSet, false, 0, false)
T(map, Map, false, 256, true)
T(multimap, MMap, false, 0, true)
T(unordered_map, UMap, false, 256, true)
T(unordered_multimap, UMMap, false, 0, true)
T(coarse_set, CSet, false, 8, false)
T(coarse_unordered_set, CUSet, false, 8, false)
T(coarse_map, CMap, false, 8, true)
T(coarse_unordered_map, CUMap, false, 8, true)
// unique containers, with a key function that has a state of its own
struct KeyFn {
  std::vector<unsigned> mask;
  unsigned operator()(const El &e) const { return e.key & mask.at(0); }
};
ENTRY(c16_unique) {
  unsigned mod = pick("by", 0, 1) ? 8 : 256;
  int n = (int)pick("size", 0, sym_param("n", 2));
  KeyFn f;
  f.mask.push_back(mod - 1);
  using V = std::vector<El>;
  Rules r{true, pick("fixed", 0, 1) != 0, mod, false};
  Gen<V> g = r.fixed ? (mod == 256 ? gen::unique<V>((size_t)n, element()) : gen::uniqueBy<V>((size_t)n, element(), f))
                     : (mod == 256 ? gen::unique<V>(element()) : gen::uniqueBy<V>(element(), f));
  CHECK(f.mask.size() == 1, "the key function still belongs to the caller");
  run(g, r, r.fixed ? 10 : n, n);
  if (0) { COVER("value"); COVER("full"); COVER("empty"); } // reached in run()
}
// the sequence of shrinks outlives the tree and the generator
ENTRY(c16_unique_outlives) {
  using V = std::vector<El>;
  draws.clear();
  Seq<Shrinkable<V>> seq;
  {
    KeyFn f;
    f.mask.push_back(7);
    seq = gen::uniqueBy<V>((size_t)2, element(), f)(h::rnd(5), 10).shrinks();
  }
  Rules r{true, true, 8, false};
  for (auto &s : h::take(seq)) { distinct(r, items(s.value())); COVER("shrink"); }
  COVER("done");
}
ENTRY(c16_array) {
  int size = (int)pick("size", 0, 1) * 50;
  using A = std::array<El, 2>;
  size_t n = (size_t)pick("count", 0, 4);
  bool threw = false;
  if (n == 4) run(gen::container<A>(element()), Rules{true, true, 0, false}, size, 2);
  else {
    try { gen::container<A>(n, element())(h::rnd(4), size).value(); } catch (const GenerationFailure &) { threw = true; }
    CHECK(threw == (n != 2), "an array is generated exactly at its own length");
    if (!threw) run(gen::container<A>(n, element()), Rules{true, true, 0, false}, size, 2);
  }
}
// too few distinct elements: a failure after a bounded number of tries
template <typename C> void starve(Gen<C> g) {
  draws.clear();
  keyMask = 1;
  bool threw = false;
  try { g(h::rnd(6), 10).value(); } catch (const GenerationFailure &) { threw = true; }
  CHECK(threw, "too few distinct elements are a generation failure");
  CHECK(draws.size() > 10, "generation fails only after retrying");
  CHECK(draws.size() < 2000, "the number of tries is bounded");
  COVER("failure");
}
ENTRY(c16_starve) {
  switch (pick("kind", 0, 5)) {
  case 0: starve(gen::container<Set>((size_t)3, element())); break;
  case 1: starve(gen::container<USet>((size_t)3, element())); break;
  case 2: starve(gen::container<Map>((size_t)3, element(), element())); break;
  case 3: starve(gen::container<UMap>((size_t)3, element(), element())); break;
  case 4: starve(gen::unique<std::vector<El>>((size_t)3, element())); break;
  default: starve(gen::uniqueBy<std::vector<El>>((size_t)3, element(), [](const El &e) { return e.key; })); break;
  }
  COVER("failure");
}
// collisions now and then do not make the generation fail, however many there are in total
template <typename C> void patient(Gen<C> g) {
  draws.clear();
  size_t n = 0;
  try { n = items(g(h::rnd(6), 10).value()).size(); } catch (const GenerationFailure &) {}
  CHECK(n == 3, "generation succeeds as long as new elements turn up after a few tries");
}
ENTRY(c16_patient) {
  static const int kTries[] = {0, 1, 40, 60};
  int wait[3] = {0, kTries[pick("first", 0, 3)], kTries[pick("second", 0, 3)]};
  int repeated = 0;
  unsigned last = 0;
  auto next = Gen<El>([&](const Random &, int) {
    if (last < 3 && repeated++ == wait[last]) { last++; repeated = 0; }
    return shrinkable::just(El{0, last});
  });
  auto value = gen::just(El{0, 0});
  switch (pick("kind", 0, 5)) {
  case 0: patient(gen::container<Set>((size_t)3, next)); break;
  case 1: patient(gen::container<USet>((size_t)3, next)); break;
  case 2: patient(gen::container<Map>((size_t)3, next, value)); break;
  case 3: patient(gen::container<UMap>((size_t)3, next, value)); break;
  case 4: patient(gen::unique<std::vector<El>>((size_t)3, next)); break;
  default: patient(gen::uniqueBy<std::vector<El>>((size_t)3, next, [](const El &e) { return e.key; })); break;
  }
  COVER("patient");
}
