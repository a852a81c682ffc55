// C07: shrink trees obey their structural laws.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <stdexcept>
using namespace rc;
namespace {
// An explicit finite tree with symbolic values: the oracle.
struct Node {
  int v;
  std::vector<Node> kids;
};
bool same(const std::vector<Node> &a, const std::vector<Node> &b);
bool same(const Node &a, const Node &b) { return both(a.v == b.v, same(a.kids, b.kids)); }
bool same(const std::vector<Node> &a, const std::vector<Node> &b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok = both(ok, same(a[i], b[i]));
  return ok;
}
// shape i of a small catalogue, values symbolic
Node symTree(int shape) {
  Node n;
  n.v = sym<int>("v");
  switch (shape) {
  case 0: break;
  case 1: n.kids.push_back(symTree(0)); break;
  case 2: n.kids.push_back(symTree(0)); n.kids.push_back(symTree(0)); break;
  case 3: n.kids.push_back(symTree(1)); break;
  case 4: n.kids.push_back(symTree(1)); n.kids.push_back(symTree(0)); break;
  case 5: n.kids.push_back(symTree(9)); break; // a path of five nodes
  case 6: n.kids.push_back(symTree(0)); n.kids.push_back(symTree(2)); n.kids.push_back(symTree(0)); break;
  case 7: n.kids.push_back(symTree(3)); n.kids.push_back(symTree(1)); break;
  case 8: n.kids.push_back(symTree(2)); n.kids.push_back(symTree(2)); break;
  case 9: n.kids.push_back(symTree(3)); break;
  }
  return n;
}
Shrinkable<int> real(const Node &n) {
  std::vector<Shrinkable<int>> k;
  for (auto &c : n.kids) k.push_back(real(c));
  return shrinkable::just(n.v, seq::fromContainer(k));
}
// reads a whole tree back, at most max nodes deep
template <typename T, typename F> Node readWith(const Shrinkable<T> &s, F f, int depth = 0) {
  Node n;
  n.v = f(s.value());
  if (depth > 6) { CHECK(false, "a tree is deeper than any legal one"); return n; }
  auto q = s.shrinks();
  for (int i = 0;; i++) {
    auto m = q.next();
    if (!m) break;
    if (i > 12) { CHECK(false, "a node has more children than any legal one"); return n; }
    n.kids.push_back(readWith(*m, f, depth + 1));
  }
  return n;
}
Node read(const Shrinkable<int> &s) { return readWith(s, [](int x) { return x; }); }
Node mapped(const Node &n, int t) {
  Node r;
  r.v = n.v ^ t;
  for (auto &k : n.kids) r.kids.push_back(mapped(k, t));
  return r;
}
Maybe<Node> filtered(const Node &n, int t) {
  if (n.v < t) return Nothing;
  Node r;
  r.v = n.v;
  for (auto &k : n.kids) {
    auto m = filtered(k, t);
    if (m) r.kids.push_back(*m);
  }
  return r;
}
int shape(const char *name) { return (int)pick(name, 0, sym_param("shapes", 6)); }
int comb(int a, int b) { return a ^ (b * 3 + 1); }
Node product(const Node &a, const Node &b) {
  Node r;
  r.v = comb(a.v, b.v);
  for (auto &k : a.kids) r.kids.push_back(product(k, b));
  for (auto &k : b.kids) r.kids.push_back(product(a, k));
  return r;
}
} // namespace
ENTRY(c07_map) {
  Node n = symTree(shape("shape"));
  int t = sym<int>("t");
  auto s = shrinkable::map(real(n), [=](int x) { return x ^ t; });
  CHECK(same(read(s), mapped(n, t)), "mapping applies the function to every value and keeps the shape");
  CHECK(same(read(s), mapped(n, t)), "reading a tree does not change it");
  // the mapped type may differ
  auto s2 = shrinkable::map(real(n), [=](int x) { return std::make_pair(x, (int64_t)t); });
  CHECK(same(readWith(s2, [=](const std::pair<int, int64_t> &p) { return p.first ^ (int)p.second; }), mapped(n, t)), "mapping to another type keeps the shape");
  COVER("map");
}
ENTRY(c07_filter) {
  Node n = symTree(shape("shape"));
  int t = sym<int>("t");
  auto m = shrinkable::filter(real(n), [=](int x) { return !(x < t); });
  auto want = filtered(n, t);
  CHECK((bool)m == (bool)want, "filtering yields nothing exactly when the root does not satisfy the predicate");
  if (m && want) CHECK(same(read(*m), *want), "filtering keeps exactly the subtrees whose values satisfy the predicate");
  COVER("filter");
}
ENTRY(c07_pair) {
  int lim = (int)sym_param("pshapes", 3);
  Node a = symTree((int)pick("sa", 0, lim)), b = symTree((int)pick("sb", 0, lim));
  auto s = shrinkable::pair(real(a), real(b));
  Node got = readWith(s, [](const std::pair<int, int> &p) { return comb(p.first, p.second); });
  CHECK(same(got, product(a, b)), "a pair shrinks the first component before the second, one at a time");
  // comb is not injective in general: the components themselves at the first level
  auto q = s.shrinks();
  for (auto &k : a.kids) { auto m = q.next(); CHECK(m, "covers the shrinks of the first"); if (!m) return; auto v = m->value(); CHECK(both(v.first == k.v, v.second == b.v), "a shrink of the first leaves the second alone"); }
  for (auto &k : b.kids) { auto m = q.next(); CHECK(m, "covers the shrinks of the second"); if (!m) return; auto v = m->value(); CHECK(both(v.first == a.v, v.second == k.v), "a shrink of the second leaves the first alone"); }
  CHECK(!q.next(), "no other shrinks");
  COVER("pair");
}
ENTRY(c07_mapcat) {
  Node n = symTree((int)pick("shape", 0, 4));
  int t = sym<int>("t"), ish = (int)pick("inner", 0, 2);
  // inner tree as a function of the value
  auto mk = [=](int x) {
    Node r;
    r.v = x ^ t;
    for (int i = 0; i < ish; i++) { Node k; k.v = x + i + 1; r.kids.push_back(k); }
    return r;
  };
  auto s = shrinkable::mapcat(real(n), [=](int x) { return real(mk(x)); });
  struct R { static Node go(const Node &n, const std::function<Node(int)> &mk) {
    Node r = mk(n.v);
    std::vector<Node> own = r.kids;
    r.kids.clear();
    for (auto &k : n.kids) r.kids.push_back(go(k, mk));
    for (auto &k : own) r.kids.push_back(k);
    return r;
  } };
  CHECK(same(read(s), R::go(n, mk)), "shrinks of the source come first, then those of the result");
  COVER("mapcat");
}
ENTRY(c07_post_shrink) {
  Node n = symTree((int)pick("shape", 0, 4));
  int t = sym<int>("t");
  // extra shrinks: x -> t when x differs from it
  auto extra = [=](int x) { return x == t ? Seq<int>() : seq::just(t); };
  auto s = shrinkable::postShrink(real(n), extra);
  struct R { static Node go(const Node &n, int t) {
    Node r;
    r.v = n.v;
    for (auto &k : n.kids) r.kids.push_back(go(k, t));
    if (n.v != t) { Node k; k.v = t; r.kids.push_back(k); }
    return r;
  } };
  CHECK(same(read(s), R::go(n, t)), "chained shrinks appear after the original ones");
  COVER("post");
}
ENTRY(c07_map_shrinks) {
  Node n = symTree(shape("shape"));
  size_t k = (size_t)pick("k", 0, 3);
  auto s = shrinkable::mapShrinks(real(n), [=](Seq<Shrinkable<int>> &&q) { return seq::drop(k, std::move(q)); });
  Node w = n;
  w.kids.erase(w.kids.begin(), w.kids.begin() + (long)std::min(k, w.kids.size()));
  CHECK(same(read(s), w), "mapShrinks keeps the value and maps the sequence of shrinks");
  COVER("mapShrinks");
}
ENTRY(c07_create) {
  int v = sym<int>("v"), a = sym<int>("a"), b = sym<int>("b");
  Node leaf;
  leaf.v = v;
  switch (pick("kind", 0, 4)) {
  case 0: CHECK(same(read(shrinkable::just(v)), leaf), "a constant has no shrinks"); break;
  case 1: CHECK(same(read(shrinkable::lambda([=] { return v; })), leaf), "a computed value without shrinks"); break;
  case 2: {
    Node w = leaf; Node ka, kb; ka.v = a; kb.v = b; w.kids = {ka, kb};
    CHECK(same(read(shrinkable::just(v, seq::just(shrinkable::just(a), shrinkable::just(b)))), w), "exactly the given shrinks");
    CHECK(same(read(shrinkable::lambda([=] { return v; }, [=] { return seq::just(shrinkable::just(a), shrinkable::just(b)); })), w), "exactly the computed shrinks");
    break;
  }
  case 3: {
    Node w = leaf; Node ka; ka.v = v ^ a; w.kids = {ka};
    CHECK(same(read(shrinkable::shrink([=] { return v; }, [=](int x) { return seq::just(shrinkable::just(x ^ a)); })), w), "the shrinks computed from the value");
    break;
  }
  case 4: { // recursive shrinks: a value divided towards zero
    int x = (int)pick("x", 0, 5);
    auto s = shrinkable::shrinkRecur(x, [=](int y) { return y == 0 ? Seq<int>() : y == 1 ? seq::just(0) : seq::just(y - 1, y / 2); });
    struct R { static Node go(int y) { Node r; r.v = y; if (y == 1) r.kids.push_back(go(0)); if (y > 1) { r.kids.push_back(go(y - 1)); r.kids.push_back(go(y / 2)); } return r; } };
    CHECK(same(read(s), R::go(x)), "every node is shrunk by the same function");
    break;
  }
  }
  COVER("create");
}
ENTRY(c07_find_local_min) {
  Node n = symTree((int)pick("shape", 0, sym_param("shapes", 7)));
  int t = sym<int>("t");
  int calls = 0;
  auto r = shrinkable::findLocalMin(real(n), [&](int x) { calls++; return x < t; });
  // the oracle: walk to the first child satisfying the condition, until there is none
  const Node *cur = &n;
  size_t steps = 0;
  for (bool moved = true; moved;) {
    moved = false;
    for (auto &k : cur->kids)
      if (k.v < t) { cur = &k; steps++; moved = true; break; }
  }
  CHECK(r.first == cur->v, "the descent takes the first shrink for which the condition holds");
  CHECK(r.second == steps, "the number of steps is reported");
  if (steps > 0) CHECK(r.first < t, "the condition holds for the result");
  COVER("min");
}
ENTRY(c07_walk_path) {
  Node n = symTree((int)pick("shape", 0, sym_param("shapes", 7)));
  std::vector<size_t> path;
  int len = (int)pick("len", 0, 4);
  const Node *cur = &n;
  for (int i = 0; i < len; i++) {
    // any 64-bit index: symbolic when out of range
    size_t p;
    if (cur) p = (size_t)pick("step", 0, (int64_t)cur->kids.size());
    else p = (size_t)pick("step", 0, 1);
    path.push_back(p);
    if (cur) cur = p < cur->kids.size() ? &cur->kids[p] : nullptr;
  }
  auto m = shrinkable::walkPath(real(n), path);
  CHECK((bool)m == (cur != nullptr), "a path leads somewhere exactly when it exists");
  if (m && cur) CHECK(same(read(*m), *cur), "replaying a path yields the tree at that path");
  COVER("walk");
}
ENTRY(c07_walk_far) {
  Node n = symTree((int)pick("shape", 0, 5));
  size_t p = sym<size_t>("step");
  ASSUME(p >= n.kids.size());
  bool second = pick("second", 0, 1) != 0;
  std::vector<size_t> path{p};
  if (second) path.push_back(0);
  CHECK(!shrinkable::walkPath(real(n), path), "an index beyond the last shrink leads nowhere");
  COVER("far");
}
ENTRY(c07_observers) {
  Node n = symTree(shape("shape"));
  int t = sym<int>("t");
  bool all = true;
  struct R { static bool go(const Node &n, int t) { bool ok = n.v < t; for (auto &k : n.kids) ok = both(ok, go(k, t)); return ok; } };
  all = R::go(n, t);
  CHECK(shrinkable::all(real(n), [=](const Shrinkable<int> &s) { return s.value() < t; }) == all, "all asks every node");
  auto q = shrinkable::immediateShrinks(real(n));
  for (auto &k : n.kids) { auto m = q.next(); CHECK(m, "immediateShrinks yields every child's value"); if (!m) return; CHECK(*m == k.v, "immediateShrinks yields every child's value in order"); }
  CHECK(!q.next(), "immediateShrinks yields nothing else");
  COVER("observers");
}
ENTRY(c07_equality) {
  Node a = symTree((int)pick("sa", 0, 4)), b = symTree((int)pick("sb", 0, 4));
  bool want = same(a, b);
  CHECK((real(a) == real(b)) == want, "trees are equal exactly when shape and values are");
  CHECK((real(a) != real(b)) == !want, "inequality is the negation of equality");
  COVER("equality");
}
// what a mapper throws: the value is unavailable, the shrinks are still enumerated without corruption
ENTRY(c07_throw) {
  Node n = symTree((int)pick("shape", 0, 4));
  int bad = sym<int>("bad"), t = sym<int>("t");
  auto s = shrinkable::map(real(n), [=](int x) { if (x == bad) throw std::runtime_error("x"); return x ^ t; });
  bool threw = false;
  int got = 0;
  try { got = s.value(); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw == (n.v == bad), "value() throws exactly what the function throws");
  if (!threw) CHECK(got == (n.v ^ t), "value() is the function of the value");
  size_t i = 0;
  auto q = s.shrinks();
  for (;;) { auto m = q.next(); if (!m) break; if (i >= n.kids.size()) { i = 99; break; } i++; }
  CHECK(i == n.kids.size(), "an exception in the function does not change the shape");
  // filter with a throwing predicate on a shrink ends the enumeration there, without corruption
  COVER("throw");
}
