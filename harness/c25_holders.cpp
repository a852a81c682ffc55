// C25: Maybe, Variant and Any hold exactly the value last put into them, and
// construct and destroy every value exactly once.
#include <rapidcheck.h>
#include <string>
#include <utility>
#include "sym.h"
#include "common.h"
#include "rapidcheck/detail/Variant.h"
#include "rapidcheck/detail/Any.h"
using namespace rc;
using namespace rc::detail;
namespace {
struct Thrown {};
int live = 0;       // objects constructed and not destroyed
int bad = 0;        // operations on something that is not a live object
int copiesLeft = 0; // the copy that throws, 0: none
void copying() { if (copiesLeft > 0 && --copiesLeft == 0) throw Thrown(); }
// knows its own address, counts its lifetimes, and may throw when copied
template <int K> struct Pad { char c[K * 24 + 1]; };
template <int K, int Align> struct alignas(Align) Obj {
  int v;
  const Obj *self;
  Pad<K> pad;
  void born() { self = this; live++; if ((uintptr_t)this % Align) bad++; }
  void ok() const { if (self != this) bad++; }
  Obj() : v(0) { born(); }
  explicit Obj(int x) : v(x) { born(); }
  Obj(int x, bool fail) : v(x) { if (fail) throw Thrown(); born(); }
  Obj(const Obj &o) : v(o.v) { o.ok(); copying(); born(); }
  Obj(Obj &&o) noexcept : v(o.v) { o.ok(); o.v = -7; born(); }
  Obj &operator=(const Obj &o) { ok(); o.ok(); copying(); v = o.v; return *this; }
  Obj &operator=(Obj &&o) noexcept { ok(); o.ok(); int x = o.v; o.v = -7; v = x; return *this; }
  ~Obj() { ok(); self = nullptr; live--; }
  bool operator==(const Obj &o) const { ok(); o.ok(); return v == o.v; }
};
template <int K, int A> std::ostream &operator<<(std::ostream &os, const Obj<K, A> &o) { return os << "obj" << K << "(" << o.v << ")"; }
using A = Obj<0, 8>;
using B = Obj<1, 64>;
void fresh() { live = 0; bad = 0; copiesLeft = (int)pick("throwAt", 0, sym_param("throws", 2)); }
void finish() {
  CHECK(bad == 0, "only live values are used, copied, moved, assigned or destroyed");
  CHECK(live == 0, "every value constructed is destroyed exactly once");
}
// ---- Maybe
struct MModel { bool has = false; bool known = true; int v = 0; };
void check(Maybe<A> &m, const MModel &e) {
  CHECK(static_cast<bool>(m) == e.has, "an option is empty exactly when nothing is in it");
  if (!e.has) return;
  const Maybe<A> &c = m;
  m->ok();
  CHECK(implies(e.known, (*m).v == e.v), "an option contains the value last put into it");
  CHECK(both((*c).v == (*m).v, both(c->v == (*m).v, both(m->v == (*m).v, &*m == &*c))), "every way of reading an option gives the same value");
}
} // namespace
ENTRY(c25_maybe) {
  fresh();
  int n = (int)pick("steps", 1, sym_param("n", 3));
  if (0) COVER("threw");
  if (0) COVER("move");
  {
    Maybe<A> p[2];
    MModel e[2];
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 11);
      int x = sym<int>("x");
      Maybe<A> &m = p[i];
      MModel &mm = e[i];
      Maybe<A> &o = p[1 - i];
      MModel &om = e[1 - i];
      MModel before = mm;
      try {
        switch (op) {
        case 0: { A a(x); m = a; mm = MModel{true, true, x}; CHECK(a.v == x, "a copied value is unchanged"); break; }
        case 1: { A a(x); m = std::move(a); mm = MModel{true, true, x}; break; }
        case 2: m = Nothing; mm = MModel{}; break;
        case 3: m.reset(); mm = MModel{}; break;
        case 4: mm = MModel{}; m.init(x); mm = MModel{true, true, x}; break;
        case 5: mm = MModel{}; m.init(x, true); break;
        case 6: m = o; mm = om; break;
        case 7: m = std::move(o); mm = om; om.known = false; COVER("move"); break;
        case 8: { const Maybe<A> &self = m; m = self; break; }
        case 9: { Maybe<A> t(m); check(t, mm); t = Nothing; Maybe<A> u(Nothing); check(u, MModel{}); break; }
        case 10: { Maybe<A> t(std::move(m)); check(t, mm); mm.known = false; o = std::move(t); om = MModel{mm.has, before.known, mm.v}; break; }
        case 11: { A a(x); Maybe<A> t(a), u(std::move(a)); check(t, MModel{true, true, x}); check(u, MModel{true, true, x}); m = t; mm = MModel{true, true, x}; break; }
        }
      } catch (const Thrown &) {
        COVER("threw");
        // a failed construction leaves the option empty, a failed assignment
        // leaves what the value's own assignment leaves
        if (op == 4 || op == 5) mm = MModel{};
        else mm = before;
      }
      check(p[0], e[0]);
      check(p[1], e[1]);
    }
    std::swap(p[0], p[1]);
    std::swap(e[0], e[1]);
    check(p[0], e[0]);
    check(p[1], e[1]);
  }
  finish();
}
ENTRY(c25_maybe_eq) {
  int n = 0;
  Maybe<int> a, b;
  Maybe<long> c;
  bool ha = pick("ha", 0, 1), hb = pick("hb", 0, 1);
  int x = sym<int>("x"), y = sym<int>("y");
  if (ha) a = x;
  if (hb) { b = y; c = (long)y; n++; }
  bool same = either(both(!ha, !hb), both(both(ha, hb), x == y));
  CHECK((a == b) == same, "options are equal exactly when both are empty or both hold equal values");
  CHECK((a != b) == !same, "inequality is the negation of equality");
  CHECK((a == c) == same, "options of different types compare by value");
  CHECK((a != c) == !same, "options of different types compare by value");
  CHECK((b == a) == same, "equality is symmetric");
  std::ostringstream os;
  os << Maybe<int>();
  CHECK(eqStr(os.str(), "Nothing"), "an empty option prints as Nothing");
  Maybe<int> rv = a;
  if (ha) CHECK(*std::move(rv) == x, "an option that is going away gives its value");
  COVER("end");
}
// ---- Variant
namespace {
using V = Variant<A, B, int>;
struct VModel { int kind = 2; bool known = true; int v = 0; };
void check(V &m, const VModel &e) {
  const V &c = m;
  CHECK(m.is<A>() == (e.kind == 0), "a variant reports the type it holds");
  CHECK(m.is<B>() == (e.kind == 1), "a variant reports the type it holds");
  CHECK(m.is<int>() == (e.kind == 2), "a variant reports the type it holds");
  int got = 0;
  switch (e.kind) {
  case 0: m.get<A>().ok(); got = m.get<A>().v; CHECK(c.get<A>().v == got, "both ways of reading agree"); break;
  case 1: m.get<B>().ok(); got = m.get<B>().v; CHECK(c.get<B>().v == got, "both ways of reading agree"); break;
  case 2: got = m.get<int>(); CHECK(c.get<int>() == got, "both ways of reading agree"); break;
  }
  CHECK(implies(e.known, got == e.v), "a variant contains the value last put into it");
}
void query(V &m, const VModel &e) {
  int keep = copiesLeft;
  copiesLeft = 0;
  A a(5); B b(6); int n = 7;
  bool ma = m.match(a), mb = m.match(b), mn = m.match(n);
  CHECK(ma == (e.kind == 0), "matching succeeds exactly for the held type");
  CHECK(mb == (e.kind == 1), "matching succeeds exactly for the held type");
  CHECK(mn == (e.kind == 2), "matching succeeds exactly for the held type");
  int got = e.kind == 0 ? m.get<A>().v : e.kind == 1 ? m.get<B>().v : m.get<int>();
  CHECK(a.v == (e.kind == 0 ? got : 5), "matching assigns the value, or nothing");
  CHECK(b.v == (e.kind == 1 ? got : 6), "matching assigns the value, or nothing");
  CHECK(n == (e.kind == 2 ? got : 7), "matching assigns the value, or nothing");
  copiesLeft = keep;
}
} // namespace
ENTRY(c25_variant) {
  fresh();
  int n = (int)pick("steps", 1, sym_param("n", 3));
  if (0) COVER("threw");
  if (0) COVER("across");
  if (0) COVER("moved");
  {
    CHECK(alignof(V) % alignof(B) == 0 && sizeof(V) > sizeof(B), "a variant has room for every alternative at its alignment");
    V p[2] = {V(sym<int>("init")), V(3)};
    VModel e[2];
    e[0].v = p[0].get<int>();
    e[1].v = 3;
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 9);
      int x = sym<int>("x");
      V &m = p[i];
      VModel &mm = e[i];
      V &o = p[1 - i];
      VModel &om = e[1 - i];
      VModel before = mm, obefore = om;
      int keep = copiesLeft;
      try {
        switch (op) {
        // assigning a value requires a type whose copies do not throw
        case 0: { copiesLeft = 0; const A a(x); m = a; copiesLeft = keep; mm = VModel{0, true, x}; CHECK(a.v == x, "a copied value is unchanged"); break; }
        case 1: { A a(x); m = std::move(a); mm = VModel{0, true, x}; break; }
        case 2: { copiesLeft = 0; const B b(x); m = b; copiesLeft = keep; mm = VModel{1, true, x}; break; }
        case 3: m = B(x); mm = VModel{1, true, x}; break;
        case 4: { const int c = x; m = c; mm = VModel{2, true, x}; break; }
        case 5: if (mm.kind != om.kind) COVER("across"); { const V &oc = o; m = oc; } mm = om; break;
        case 6: m = std::move(o); mm = om; if (om.kind != 2) om.known = false; COVER("moved"); break;
        case 7: { const V &self = m; m = self; break; }
        case 8: { V t(m); check(t, mm); V u(A{x}); check(u, VModel{0, true, x}); t = u; check(t, VModel{0, true, x}); check(u, VModel{0, true, x}); break; }
        case 9: { V t(std::move(m)); check(t, mm); if (mm.kind != 2) mm.known = false; o = std::move(t); om = VModel{mm.kind, before.known, mm.v}; break; }
        }
      } catch (const Thrown &) {
        COVER("threw");
        mm = before;
        om = obefore;
      }
      check(p[0], e[0]);
      check(p[1], e[1]);
      query(p[i], e[i]);
    }
  }
  finish();
}
ENTRY(c25_variant_eq) {
  using W = Variant<int, long, std::string>;
  int x = sym<int>("x"), y = sym<int>("y");
  int ka = (int)pick("ka", 0, 2), kb = (int)pick("kb", 0, 2);
  char ca = (char)range("ca", 32, 126), cb = (char)range("cb", 32, 126);
  std::string sa(1, ca), sb(1, cb);
  auto mk = [](int k, int v, const std::string &s) { return k == 0 ? W(v) : k == 1 ? W((long)v) : W(s); };
  W a(mk(ka, x, sa)), b(mk(kb, y, sb));
  bool same = both(ka == kb, ka == 2 ? ca == cb : x == y);
  CHECK((a == b) == same, "variants are equal exactly when they hold equal values of the same type");
  CHECK((a != b) == !same, "inequality is the negation of equality");
  CHECK((b == a) == same, "equality is symmetric");
  W c(a);
  CHECK(c == a, "a copy equals the original");
  W d(0);
  d = a;
  CHECK(d == a, "an assigned copy equals the original");
  W f(std::move(c));
  CHECK(f == a, "moving transfers the value");
  // a short text, and one that owns memory
  W big(std::string(40, ca));
  d = big;
  CHECK(d == big, "an assigned copy equals the original");
  d = a;
  CHECK(d == a, "an assigned copy equals the original");
  std::ostringstream os;
  if (ka == 2) { os << a; CHECK(eqStr(os.str(), sa), "a variant prints as the value in it"); }
  COVER("end");
}
// ---- Any
namespace {
struct NModel { int kind = 0; bool known = true; int v = 0; }; // 0: empty 1: A 2: B 3: int
void check(Any &m, const NModel &e) {
  CHECK(static_cast<bool>(m) == (e.kind != 0), "a holder is null exactly when nothing is in it");
  const Any &c = m;
  int got = 0;
  switch (e.kind) {
  case 1: m.get<A>().ok(); got = m.get<A>().v; CHECK(c.get<A>().v == got, "both ways of reading agree"); break;
  case 2: m.get<B>().ok(); got = m.get<B>().v; CHECK(c.get<B>().v == got, "both ways of reading agree"); break;
  case 3: got = m.get<int>(); CHECK(c.get<int>() == got, "both ways of reading agree"); break;
  }
  CHECK(implies(e.kind != 0, got == e.v), "a holder contains the value last put into it");
}
} // namespace
ENTRY(c25_any) {
  fresh();
  int n = (int)pick("steps", 1, sym_param("n", 3));
  if (0) COVER("threw");
  if (0) COVER("moved");
  int64_t heap = sym_live();
  {
    Any p[2];
    NModel e[2];
    for (int s = 0; s < n; s++) {
      int i = (int)pick("i", 0, 1), op = (int)pick("op", 0, 7);
      int x = sym<int>("x");
      Any &m = p[i];
      NModel &mm = e[i];
      Any &o = p[1 - i];
      NModel &om = e[1 - i];
      try {
        switch (op) {
        case 0: { A a(x); m = Any::of(a); mm = NModel{1, true, x}; CHECK(a.v == x, "a copied value is unchanged"); break; }
        case 1: { A a(x); m = Any::of(std::move(a)); mm = NModel{1, true, x}; break; }
        case 2: { const B b(x); m = Any::of(b); mm = NModel{2, true, x}; break; }
        case 3: m = Any::of(int(x)); mm = NModel{3, true, x}; break;
        case 4: m.reset(); mm = NModel{}; break;
        case 5: m = std::move(o); mm = om; om = NModel{}; COVER("moved"); break;
        case 6: { Any t(std::move(m)); check(t, mm); check(m, NModel{}); o = std::move(t); om = mm; mm = NModel{}; break; }
        case 7: // the held value may be changed in place
          if (mm.kind == 1) { m.get<A>().v = x; mm.v = x; }
          if (mm.kind == 3) { m.get<int>() = x; mm.v = x; }
          break;
        }
      } catch (const Thrown &) { COVER("threw"); }
      check(p[0], e[0]);
      check(p[1], e[1]);
    }
  }
  finish();
  CHECK(sym_live() == heap, "all memory of a type-erased holder is released");
}
ENTRY(c25_any_show) {
  char c = (char)range("c", 35, 90);
  std::string s(1, c);
  Any a = Any::of(s), none;
  std::ostringstream v, t, o, e1, e2, e3;
  a.showValue(v);
  a.showType(t);
  o << a;
  none.showValue(e1);
  none.showType(e2);
  e3 << none;
  CHECK(eqStr(v.str(), rc::toString(s)), "a type-erased value is shown as the value in it");
  CHECK(eqStr(o.str(), rc::toString(s)), "a type-erased value is shown as the value in it");
  CHECK(eqStr(t.str(), typeToString<std::string>()), "a type-erased value reports its type");
  CHECK(e1.str().empty() && e2.str().empty() && e3.str().empty(), "nothing is shown for a null holder");
  COVER("end");
}
