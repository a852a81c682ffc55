// C20: generation inside a test body shrinks each draw consistently.
#include <rapidcheck.h>
#include <memory>
#include "sym.h"
#include "common.h"
#include "rapidcheck/gen/detail/ExecRaw.h"
using namespace rc;
using namespace rc::gen::detail;
namespace {
using U = uint32_t;
// drawn values of different types
template <int N> struct Typed { U v; };
Shrinkable<U> tree(U v, int depth) {
  return shrinkable::shrink([=] { return v; }, [=](U x) {
    if (depth == 0) return Seq<Shrinkable<U>>();
    return seq::just(tree(x ^ 1u, depth - 1), tree(x + 2, 0));
  });
}
// what happens at each place in the sequence of draws
struct Place { Random random; U word; };
std::vector<Place> places;
int place = 0;      // draws made so far in the current execution
bool fixedPart = false;
int size0 = 0, drawn = 0;
U wordAt(const Random &r) { Random c(r); return (U)(c.split().next() ^ c.next()); }
// the generator for draws of type N; it checks that it is run on its place's stream
template <int N> Gen<Typed<N>> src() {
  return gen::map(Gen<U>([](const Random &r, int size) {
    CHECK(size == size0, "draws are generated at the size of the body");
    U w = wordAt(r);
    drawn++;
    bool known = false;
    for (auto &p : places) known = known || p.random == r;
    if (!known) places.push_back(Place{r, w});
    return tree(w + N, (int)sym_param("depth", 2));
  }), [](U x) { return Typed<N>{x}; });
}
// a body is written against a source of draws: the real one or the model
struct Real {
  template <int N> U draw(const char *name) { return (*src<N>().as(name)).v; }
};
struct Model {
  struct Step { int type; const char *name; Shrinkable<U> s; };
  std::vector<Step> steps; // fixed ones first
  size_t at = 0;
  template <int N> U draw(const char *name) {
    if (at == steps.size()) {
      // drawn in this place for the first time: the stream of the place
      CHECK(at < places.size(), "every place has a stream");
      U w = at < places.size() ? places[at].word : 0;
      steps.push_back(Step{N, name, tree(w + N, (int)sym_param("depth", 2))});
    }
    return steps[at++].s.value();
  }
};
enum { Straight, Branch, Count, None, Many };
template <typename D> uint64_t body(int kind, D &d) {
  switch (kind) {
  case Straight: { U a = d.template draw<1>("a"); U b = d.template draw<2>(""); return ((uint64_t)a << 32) | b; }
  case Branch: { // the type of the second draw depends on the first, the third is always there
    U a = d.template draw<1>("a");
    U b = (a & 1) ? d.template draw<2>("b") : d.template draw<3>("other");
    U c = d.template draw<4>("c");
    return ((uint64_t)a << 32) ^ ((uint64_t)b << 16) ^ c;
  }
  case Count: { // the number of draws depends on the first
    U a = d.template draw<1>("n");
    uint64_t sum = a;
    for (U i = 0; i < (a & 1) + 1; i++) sum = sum * 3 + d.template draw<5>("item");
    return sum;
  }
  case Many: { // a later type and a later number depend on draws in the middle
    uint64_t sum = d.template draw<1>("one");
    sum = sum * 3 + d.template draw<2>("two");
    U c = d.template draw<3>("three");
    sum = sum * 3 + ((c & 1) ? d.template draw<4>("four") : d.template draw<5>("fourth"));
    sum = sum * 3 + d.template draw<2>("five");
    if (c & 2) sum = sum * 3 + d.template draw<1>("six");
    return sum * 3 + c;
  }
  default: return 77;
  }
}
using Raw = std::pair<uint64_t, Recipe>;
void check(const Shrinkable<Raw> &s, int kind, const std::vector<Model::Step> &fixed, size_t numFixed, int depth) {
  place = 0;
  auto v = s.value();
  Model m;
  m.steps = fixed;
  uint64_t want = body(kind, m);
  CHECK(v.first == want, "the body sees the recorded draws and deterministic new ones");
  // the recipe names what was drawn
  CHECK(v.second.ingredients.size() == m.steps.size(), "the recipe lists every draw");
  CHECK(v.second.size == size0, "the recipe records the size");
  for (size_t i = 0; i < m.steps.size() && i < v.second.ingredients.size(); i++) {
    auto &g = v.second.ingredients[i];
    CHECK(g.description == m.steps[i].name, "the recipe lists the draws in order");
    auto any = g.value();
    U u = 0;
    switch (m.steps[i].type) {
    case 1: u = any.get<Typed<1>>().v; break;
    case 2: u = any.get<Typed<2>>().v; break;
    case 3: u = any.get<Typed<3>>().v; break;
    case 4: u = any.get<Typed<4>>().v; break;
    default: u = any.get<Typed<5>>().v; break;
    }
    CHECK(u == m.steps[i].s.value(), "the recipe holds the drawn values");
  }
  // replaying the recipe gives the same result
  CHECK(s.value().first == want, "running the body again gives the same result");
  if (depth == 0) return;
  auto seq = s.shrinks();
  for (size_t i = numFixed; i < m.steps.size(); i++) {
    auto ss = m.steps[i].s.shrinks();
    for (;;) {
      auto y = ss.next();
      if (!y) break;
      auto x = seq.next();
      CHECK((bool)x, "every shrink of every draw is offered");
      if (!x) return;
      std::vector<Model::Step> f(m.steps.begin(), m.steps.begin() + (long)i);
      f.push_back(Model::Step{m.steps[i].type, m.steps[i].name, *y});
      check(*x, kind, f, i, depth - 1);
      COVER("shrink");
    }
  }
  CHECK(!seq.next(), "each shrink replaces exactly one draw by one of its shrinks");
}
} // namespace
ENTRY(c20_exec) {
  int kind = (int)pick("kind", 0, 4);
  size0 = (int)pick("size", 0, 1) * 40;
  auto g = execRaw([=] { Real r; return body(kind, r); });
  Random r = h::rnd(1), before(r);
  auto s = g(r, size0);
  CHECK(r == before, "the caller's random state is not disturbed");
  (void)s.value();
  size_t want = kind == Straight ? 2 : kind == Branch ? 3 : kind == None ? 0 : places.size();
  CHECK(kind != Many || places.size() == 5 || places.size() == 6, "every draw has a stream of its own");
  CHECK(places.size() == want, "every draw has a stream of its own");
  CHECK(sym_words_used == 2 * places.size(), "every draw has a stream of its own");
  check(s, kind, {}, 0, 2);
  // public form: the same without the recipe
  auto p = gen::exec([=] { Real r2; return body(kind, r2); })(r, size0);
  CHECK(p.value() == s.value().first, "exec gives the value of the body");
  auto a = s.shrinks();
  auto b = p.shrinks();
  for (;;) {
    auto x = a.next();
    auto y = b.next();
    CHECK((bool)x == (bool)y, "exec shrinks like the body");
    if (!x || !y) break;
    CHECK(x->value().first == y->value(), "exec shrinks like the body");
  }
  if (0) COVER("shrink");
}
// arguments are drawn together, first
ENTRY(c20_arguments) {
  int size = (int)pick("size", 0, 1) * 40;
  auto f = [](bool a, bool b) { return (a ? 1 : 0) + (b ? 2 : 0) + (*gen::arbitrary<bool>() ? 4 : 0); };
  auto s = execRaw(f)(h::rnd(1), size);
  auto t = execRaw([=] { auto x = *gen::arbitrary<std::tuple<bool, bool>>(); return f(std::get<0>(x), std::get<1>(x)); })(h::rnd(1), size);
  std::vector<int> first, second;
  auto check2 = [](const Shrinkable<std::pair<int, Recipe>> &x, const Shrinkable<std::pair<int, Recipe>> &y) {
    auto v = x.value(), w = y.value();
    CHECK(v.first == w.first, "arguments are drawn before the body runs");
    CHECK(v.second.ingredients.size() == 2 && w.second.ingredients.size() == 2, "the arguments are one draw");
    auto args = v.second.ingredients[0].value();
    auto tup = args.get<std::tuple<bool, bool>>();
    CHECK(((std::get<0>(tup) ? 1 : 0) + (std::get<1>(tup) ? 2 : 0)) == (v.first & 3), "the recipe holds the arguments");
  };
  check2(s, t);
  auto a = s.shrinks();
  auto b = t.shrinks();
  for (;;) {
    auto x = a.next();
    auto y = b.next();
    CHECK((bool)x == (bool)y, "arguments shrink like a tuple");
    if (!x || !y) break;
    check2(*x, *y);
  }
  COVER("arguments");
}
// a body inside a body has draws of its own
ENTRY(c20_nested) {
  size0 = 10;
  int order = (int)pick("order", 0, 1);
  auto inner = gen::exec([] { Real r; U a = r.draw<1>("x"), b = r.draw<2>("y"); return a * 3 + b; });
  auto s = execRaw([=] {
    Real r;
    U b = 0, a = 0;
    if (order) b = r.draw<3>("z");
    a = *inner.as("inner");
    if (!order) b = r.draw<3>("z");
    return std::make_pair(a, b);
  })(h::rnd(1), size0);
  auto v = s.value();
  CHECK(places.size() == 3 && sym_words_used == 6, "every draw has a stream of its own");
  CHECK(v.second.ingredients.size() == 2, "draws of an inner body are not draws of the outer one");
  if (v.second.ingredients.size() != 2) return;
  auto &in = v.second.ingredients[order ? 1 : 0];
  CHECK(in.description == "inner" && v.second.ingredients[order ? 0 : 1].description == "z", "the recipe lists the draws in order");
  CHECK(in.value().get<U>() == v.first.first, "the recipe holds the value of the inner body");
  auto seq = s.shrinks();
  int n = 0;
  for (;;) {
    auto x = seq.next();
    if (!x) break;
    n++;
    auto w = x->value();
    CHECK(both(either(w.first.first == v.first.first, w.first.second == v.first.second), either(w.first.first != v.first.first, w.first.second != v.first.second)), "a shrink replaces one draw");
  }
  CHECK(n == 6, "every shrink of every draw is offered");
  COVER("nested");
}
// drawing while generating, or outside of any body, is refused
ENTRY(c20_refused) {
  size0 = 10;
  bool threw = false;
  try { (void)*src<1>(); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw, "drawing outside of a body is refused");
  int how = (int)pick("how", 0, 1);
  auto inside = how ? gen::map(src<1>(), [](Typed<1> x) { return x.v + (*src<2>()).v; })
                    : Gen<U>([](const Random &, int) { return shrinkable::just((*src<2>()).v); });
  auto s = execRaw([=] {
    U a = 0, b = (*src<3>().as("b")).v;
    int refused = 0;
    try { a = *inside; } catch (const std::runtime_error &) { refused = 1; }
    U c = (*src<4>().as("c")).v;
    return std::make_pair(refused + 0 * a, b + c);
  })(h::rnd(1), size0);
  auto v = s.value();
  CHECK(v.first.first == 1, "drawing while another draw is generated is refused");
  CHECK(v.second.ingredients.size() == 3, "the recipe lists every draw");
  if (v.second.ingredients.size() == 3) CHECK(v.second.ingredients[0].description == "b" && v.second.ingredients[2].description == "c", "the recipe lists the draws in order");
  // an exception from the body is passed on, and the next draw outside is refused again
  auto t = gen::exec([=]() -> U { U x = (*src<1>()).v; if (x == x) throw 5; return x; })(h::rnd(2), size0);
  int got = 0;
  try { (void)t.value(); } catch (int e) { got = e; }
  CHECK(got == 5, "an exception from the body is passed on");
  threw = false;
  try { (void)*src<1>(); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw, "drawing outside of a body is refused");
  COVER("refused");
}
