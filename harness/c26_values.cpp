// C26: sequences, shrink trees and generators are safe first-class values.
#include <rapidcheck.h>
#include <string>
#include <utility>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
int liveImpls = 0;  // user objects inside values under test
int bad = 0;
int copiesLeft = 0; // the copy of a user object that throws, 0: none
struct Thrown {};
// a user object that knows its address, counts lifetimes and may throw when copied
struct Part {
  const Part *self;
  bool fails; // whether copies may throw at all
  explicit Part(bool f = false) : self(this), fails(f) { liveImpls++; }
  Part(const Part &o) : self(this), fails(o.fails) {
    o.ok();
    if (fails && copiesLeft > 0 && --copiesLeft == 0) throw Thrown();
    liveImpls++;
  }
  Part(Part &&o) noexcept : self(this), fails(o.fails) { o.ok(); liveImpls++; }
  Part &operator=(const Part &) = delete;
  ~Part() { ok(); self = nullptr; liveImpls--; }
  void ok() const { if (self != this) bad++; }
};
void finish(int64_t heap) {
  CHECK(bad == 0, "only live objects are used");
  CHECK(liveImpls == 0, "everything a value owns is destroyed exactly once");
  CHECK(sym_live() == heap, "all memory is released");
}
// ---- sequences
// counts up from a symbolic start, throws at some position or ends
struct Count {
  Part part{true};
  int base, at, end, throwAt;
  Count(int b, int e, int t) : base(b), at(0), end(e), throwAt(t) {}
  Maybe<int> operator()() {
    part.ok();
    if (at == throwAt) throw Thrown();
    if (at == end) return Nothing;
    return base + at++;
  }
};
struct SModel {
  bool any = false; // empty from the start, or moved from
  bool known = true;
  int base = 0, at = 0, end = 0, throwAt = -1;
  Maybe<int> next() {
    if (!any || at == throwAt) { any = false; return Nothing; }
    if (at == end) return Nothing;
    return (int)((unsigned)base + (unsigned)at++);
  }
};
bool nextAgrees(Seq<int> &s, SModel &m) {
  auto got = s.next();
  auto want = m.next();
  CHECK(static_cast<bool>(got) == static_cast<bool>(want), "a sequence ends where the original would have");
  if (!got) return false;
  if (want) CHECK(*got == *want, "a sequence gives the values that the original would have");
  return true;
}
void drain(Seq<int> s, SModel m) {
  for (int i = 0; i < 6 && nextAgrees(s, m); i++) {}
}
} // namespace
ENTRY(c26_seq) {
  int64_t heap = sym_live();
  liveImpls = bad = 0;
  copiesLeft = 0;
  if (0) COVER("threw");
  if (0) COVER("fromEmpty");
  int n = (int)pick("steps", 1, sym_param("n", 3));
  int fail = (int)pick("failCopy", 0, 2);
  {
    Seq<int> p[2];
    SModel e[2];
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 9);
      Seq<int> &m = p[i], &o = p[1 - i];
      SModel &mm = e[i], &om = e[1 - i];
      SModel before = mm, obefore = om;
      int b = (int)range("base", -1000000, 1000000);
      copiesLeft = fail;
      try {
        switch (op) {
        case 0: { copiesLeft = 0; m = Seq<int>(Count(b, 2, -1)); mm = SModel{true, true, b, 0, 2, -1}; break; }
        case 1: { m = makeSeq<Count>(b, 2, 1); mm = SModel{true, true, b, 0, 2, 1}; break; }
        case 2: m = Seq<int>(); mm = SModel(); break;
        case 3: nextAgrees(m, mm); break;
        case 4: if (!om.any) COVER("fromEmpty"); m = o; mm = om; break;
        case 5: m = std::move(o); mm = om; om = SModel(); break;
        case 6: { const Seq<int> &self = m; m = self; break; }
        case 7: { Seq<int> t(m); SModel tm = mm; nextAgrees(t, tm); m = std::move(t); mm = tm; break; }
        case 8: { Seq<int> t(std::move(m)); SModel tm = mm; nextAgrees(t, tm); o = t; om = tm; mm = SModel(); break; }
        case 9: std::swap(m, o); std::swap(mm, om); break;
        }
      } catch (const Thrown &) {
        COVER("threw");
        mm = before;
        om = obefore;
        if (op == 8) { m = Seq<int>(); mm = SModel(); }
      }
      copiesLeft = 0;
    }
    for (int i = 0; i < 2; i++) { drain(p[i], e[i]); drain(p[i], e[i]); }
  }
  finish(heap);
}
// ---- shrink trees
namespace {
// the tree of shapes: a node at depth d has `d` children
struct Node {
  Part part;
  int v, depth;
  Node(int v_, int d) : v(v_), depth(d) {}
  int value() const { part.ok(); return v; }
  Seq<Shrinkable<int>> shrinks() const {
    part.ok();
    if (depth == 0) return Seq<Shrinkable<int>>();
    Node me(*this);
    int i = 0;
    return Seq<Shrinkable<int>>([me, i]() mutable -> Maybe<Shrinkable<int>> {
      me.part.ok();
      if (i == me.depth) return Nothing;
      i++;
      return makeShrinkable<Node>((int)((unsigned)me.v * 4u + (unsigned)i), me.depth - 1);
    });
  }
};
struct TModel { bool any = false; int v = 0, depth = 0; };
struct QModel { bool any = false; int v = 0, depth = 0, at = 0; };
int childV(int v, int i) { return (int)((unsigned)v * 4u + (unsigned)(i + 1)); }
void check(const Shrinkable<int> &s, const TModel &e);
void checkSeq(Seq<Shrinkable<int>> q, QModel e) {
  for (;;) {
    auto x = q.next();
    bool more = e.any && e.at < e.depth;
    CHECK(static_cast<bool>(x) == more, "shrinks are those of the original");
    if (!x || !more) return;
    check(*x, TModel{true, childV(e.v, e.at), e.depth - 1});
    e.at++;
  }
}
void check(const Shrinkable<int> &s, const TModel &e) {
  if (!e.any) return;
  CHECK(s.value() == e.v, "a shrink tree has the value of the original");
  checkSeq(s.shrinks(), QModel{true, e.v, e.depth, 0});
}
} // namespace
ENTRY(c26_shrinkable) {
  int64_t heap = sym_live();
  liveImpls = bad = 0;
  copiesLeft = 0;
  if (0) COVER("descend");
  if (0) COVER("orphan");
  if (0) COVER("movedFrom");
  int n = (int)pick("steps", 1, sym_param("n", 3));
  {
    int a = (int)range("a", -1000000, 1000000), b = (int)range("b", -1000000, 1000000);
    Shrinkable<int> p[2] = {makeShrinkable<Node>(a, 2), makeShrinkable<Node>(b, 1)};
    TModel e[2] = {{true, a, 2}, {true, b, 1}};
    Seq<Shrinkable<int>> q;
    QModel qe;
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 9);
      Shrinkable<int> &m = p[i], &o = p[1 - i];
      TModel &mm = e[i], &om = e[1 - i];
      int x = sym<int>("x");
      switch (op) {
      case 0: m = makeShrinkable<Node>(x, 1); mm = TModel{true, x, 1}; break;
      case 1: if (!om.any) COVER("movedFrom"); m = o; mm = om; break;
      case 2: m = std::move(o); mm = om; om = TModel(); break;
      case 3: { const Shrinkable<int> &self = m; m = self; break; }
      case 4: { Shrinkable<int> t(m); check(t, mm); break; }
      case 5: { Shrinkable<int> t(std::move(m)); check(t, mm); o = t; om = mm; mm = TModel(); break; }
      case 6: std::swap(m, o); std::swap(mm, om); break;
      case 7: if (mm.any) { q = m.shrinks(); qe = QModel{true, mm.v, mm.depth, 0}; } break;
      case 8: { // descend, the tree above goes away
        auto c = q.next();
        bool more = qe.any && qe.at < qe.depth;
        CHECK(static_cast<bool>(c) == more, "a stored sequence of shrinks continues as the original");
        if (c && more) { m = std::move(*c); mm = TModel{true, childV(qe.v, qe.at++), qe.depth - 1}; COVER("descend"); }
        break;
      }
      case 9: { auto keep = q; m = makeShrinkable<Node>(x, 0); o = m; mm = om = TModel{true, x, 0}; checkSeq(keep, qe); if (qe.any) COVER("orphan"); break; }
      }
    }
    check(p[0], e[0]);
    check(p[1], e[1]);
    checkSeq(q, qe);
    std::vector<Shrinkable<int>> v; // relocation when a vector grows
    for (int i = 0; i < 2; i++) if (e[i].any) { v.push_back(p[i]); check(v.back(), e[i]); check(v.front(), e[e[0].any ? 0 : 1]); }
  }
  finish(heap);
}
// ---- generators
namespace {
struct GenImplFn {
  Part part;
  int base;
  bool fails;
  GenImplFn(int b, bool f) : base(b), fails(f) {}
  Shrinkable<int> operator()(const Random &, int size) const {
    part.ok();
    if (fails) throw Thrown();
    return makeShrinkable<Node>((int)((unsigned)base + (unsigned)size), 1);
  }
};
struct GModel { bool any = false; int base = 0; bool fails = false; int name = 0; };
std::string nameOf(int i) { return i == 0 ? "" : i == 1 ? "first" : "a name that is long enough to own memory"; }
void check(const Gen<int> &g, const GModel &e) {
  if (!e.any) return;
  CHECK(eqStr(g.name(), nameOf(e.name)), "a generator keeps its name");
  int size = (int)range("size", 0, 1000);
  auto s = g(h::rnd(1), size);
  if (!e.fails) { check(s, TModel{true, (int)((unsigned)e.base + (unsigned)size), 1}); return; }
  for (int i = 0; i < 2; i++) {
    Shrinkable<int> t(s);
    bool threw = false;
    try { t.value(); } catch (const Thrown &) { threw = true; }
    CHECK(threw, "the error of a failing generator is in the tree and its copies");
    CHECK(!t.shrinks().next(), "a failed value has no shrinks");
  }
}
} // namespace
ENTRY(c26_gen) {
  int64_t heap = sym_live();
  liveImpls = bad = 0;
  copiesLeft = 0;
  if (0) COVER("movedFrom");
  if (0) COVER("derived");
  int n = (int)pick("steps", 1, sym_param("n", 3));
  {
    int a = sym<int>("a"), b = sym<int>("b");
    Gen<int> p[2] = {Gen<int>(GenImplFn(a, false)), Gen<int>(GenImplFn(b, true))};
    GModel e[2] = {{true, a, false, 0}, {true, b, true, 0}};
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 8);
      Gen<int> &m = p[i], &o = p[1 - i];
      GModel &mm = e[i], &om = e[1 - i];
      int x = sym<int>("x");
      switch (op) {
      case 0: m = Gen<int>(GenImplFn(x, false)); mm = GModel{true, x, false, 0}; break;
      case 1: if (!om.any) COVER("movedFrom"); m = o; mm = om; break;
      case 2: m = std::move(o); mm = om; om = GModel(); break;
      case 3: { const Gen<int> &self = m; m = self; break; }
      case 4: { Gen<int> t(m); check(t, mm); break; }
      case 5: { Gen<int> t(std::move(m)); check(t, mm); o = t; om = mm; mm = GModel(); break; }
      case 6: std::swap(m, o); std::swap(mm, om); break;
      case 7: if (mm.any) { GModel t = mm; t.name = (int)pick("name", 1, 2); Gen<int> named = m.as(nameOf(t.name)); check(named, t); check(m, mm); o = named; om = t; } break;
      case 8: if (mm.any) { // a generator built from another outlives it
        Gen<int> d = gen::map(m, [](int y) { return ~y; });
        GModel t = mm;
        m = Gen<int>(GenImplFn(x, false));
        mm = GModel{true, x, false, 0};
        auto r = d(h::rnd(1), 3);
        d = m;
        bool threw = false;
        try { CHECK(r.value() == ~(int)((unsigned)t.base + 3u), "a derived generator keeps what it was built from"); } catch (const Thrown &) { threw = true; }
        CHECK(threw == t.fails, "a derived generator keeps what it was built from");
        COVER("derived");
        break;
      }
      }
    }
    for (int i = 0; i < 2; i++) check(p[i], e[i]);
  }
  finish(heap);
}
