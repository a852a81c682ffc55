// C08: lazy sequences agree with the list they denote.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include <list>
#include <set>
#include <stdexcept>
using namespace rc;
typedef std::vector<int> L;
namespace {
unsigned same(const Maybe<int> &m, int x) { return m ? (unsigned)(*m == x) : 0; }
// the sequence yields exactly want, stays ended, and copies taken anywhere are independent
void agree(Seq<int> s, const L &want, const char *what, bool ended = true) {
  int cp = (int)pick("copyAt", 0, (int64_t)want.size());
  Seq<int> copy;
  for (size_t i = 0; i < want.size(); i++) {
    if ((int)i == cp) copy = Seq<int>(s);
    auto m = s.next();
    CHECK((bool)m, what);
    if (!m) return;
    CHECK(*m == want[i], what);
  }
  if (cp == (int)want.size()) copy = Seq<int>(s);
  if (ended) {
    CHECK(!s.next(), what);
    CHECK(!s.next(), "a sequence that has ended stays ended");
  }
  for (size_t i = cp; i < want.size(); i++) {
    auto m = copy.next();
    CHECK((bool)m, "a copy continues independently of the original");
    if (!m) return;
    CHECK(*m == want[i], "a copy continues independently of the original");
  }
  if (ended) {
    CHECK(!copy.next(), "a copy continues independently of the original");
    CHECK(!copy.next(), "a copy that has ended stays ended");
  }
  Seq<int> third(copy);
  if (ended) CHECK(!third.next(), "a copy of an ended sequence has ended");
}
L symList(int maxLen) {
  L l;
  int n = (int)pick("len", 0, maxLen);
  for (int i = 0; i < n; i++) l.push_back(sym<int>("x"));
  return l;
}
Seq<int> fromList(const L &l) { return seq::fromContainer(l); }

const int kOps = 12;
// applies the same operation to the sequence and to the list
void apply(int op, Seq<int> &s, L &l, int t) {
  L r;
  switch (op) {
  case 0: { size_t n = (size_t)pick("n", 0, 4); s = seq::drop(n, std::move(s)); for (size_t i = n; i < l.size(); i++) r.push_back(l[i]); break; }
  case 1: { size_t n = (size_t)pick("n", 0, 4); s = seq::take(n, std::move(s)); for (size_t i = 0; i < n && i < l.size(); i++) r.push_back(l[i]); break; }
  case 2: { s = seq::dropWhile(std::move(s), [=](int x) { return x < t; }); size_t i = 0; while (i < l.size() && l[i] < t) i++; for (; i < l.size(); i++) r.push_back(l[i]); break; }
  case 3: { s = seq::takeWhile(std::move(s), [=](int x) { return x < t; }); for (size_t i = 0; i < l.size() && l[i] < t; i++) r.push_back(l[i]); break; }
  case 4: { s = seq::map(std::move(s), [=](int x) { return x ^ t; }); for (int x : l) r.push_back(x ^ t); break; }
  case 5: { s = seq::filter(std::move(s), [=](int x) { return x < t; }); for (int x : l) if (x < t) r.push_back(x); break; }
  case 6: { Seq<int> other = seq::just(t, t ^ 1); s = seq::zipWith([](int a, int b) { return a ^ (b << 1); }, std::move(s), std::move(other)); for (size_t i = 0; i < l.size() && i < 2; i++) r.push_back(l[i] ^ ((i ? t ^ 1 : t) << 1)); break; }
  case 7: { Seq<int> mid = s; s = seq::concat(std::move(s), seq::just(t), std::move(mid)); r = l; r.push_back(t); for (int x : l) r.push_back(x); break; }
  case 8: { s = seq::mapcat(std::move(s), [=](int x) { return x < t ? Seq<int>() : seq::just(x, x ^ 1); }); for (int x : l) if (!(x < t)) { r.push_back(x); r.push_back(x ^ 1); } break; }
  case 9: { s = seq::mapMaybe(std::move(s), [=](int x) -> Maybe<int> { if (x < t) return Nothing; return x ^ 5; }); for (int x : l) if (!(x < t)) r.push_back(x ^ 5); break; }
  case 10: { auto f = [=](int x) { return seq::take((size_t)(x < t ? 0 : 2), seq::repeat(x)); }; s = seq::join(seq::map(std::move(s), f)); for (int x : l) if (!(x < t)) { r.push_back(x); r.push_back(x); } break; }
  case 11: { s = seq::cast<int>(seq::cast<int64_t>(seq::cast<int>(std::move(s)))); r = l; break; }
  }
  l = r;
}
} // namespace
ENTRY(c08_compose) {
  L l = symList((int)sym_param("len", 3));
  Seq<int> s = fromList(l);
  int t = sym<int>("threshold");
  int d = (int)sym_param("depth", 2), fixed = (int)sym_param("op", -1);
  for (int i = 0; i < d; i++) {
    int op = i == 0 && fixed >= 0 ? fixed : (int)pick("op", 0, kOps - 1);
    apply(op, s, l, t);
  }
  agree(std::move(s), l, "a combinator yields the elements of the list operation");
  COVER("compose");
}
ENTRY(c08_create) {
  int a = sym<int>("a"), b = sym<int>("b"), c = sym<int>("c");
  switch (pick("kind", 0, 11)) {
  case 0: agree(seq::just(a, b, c), {a, b, c}, "just"); break;
  case 1: agree(seq::just(a), {a}, "just"); break;
  case 2: { std::list<int> l{a, b, c}; agree(seq::fromContainer(l), {a, b, c}, "fromContainer of a list"); CHECK(l.front() == a && l.back() == c, "the source container is left alone"); break; }
  case 3: { L l{a, b, c}; agree(seq::fromContainer(l), l, "fromContainer of a vector"); CHECK(both(l[0] == a, l[2] == c), "the source container is left alone"); break; }
  case 4: { std::set<int> s; int n = (int)pick("n", 0, 3); for (int i = 0; i < n; i++) s.insert(i * 3); L w(s.begin(), s.end()); agree(seq::fromContainer(s), w, "fromContainer of a set"); break; }
  case 5: { L l{a, b, c}; int f = (int)pick("from", 0, 3), t = (int)pick("to", f, 3); agree(seq::fromIteratorRange(l.begin() + f, l.begin() + t), L(l.begin() + f, l.begin() + t), "fromIteratorRange"); break; }
  case 6: agree(seq::repeat(a), {a, a, a, a}, "repeat", false); break;
  case 7: { auto s = seq::iterate(a, [=](int x) { return x ^ b; }); agree(s, {a, a ^ b, a, a ^ b}, "iterate", false); break; }
  case 8: { L l{a, b}; agree(seq::cycle(seq::fromContainer(l)), {a, b, a, b, a}, "cycle", false); break; }
  case 9: agree(Seq<int>(), {}, "the empty sequence"); break;
  case 10: { L l; agree(seq::fromContainer(l), {}, "an empty container"); agree(seq::fromIteratorRange(l.begin(), l.end()), {}, "an empty range"); break; }
  case 11: agree(seq::map(seq::index(), [](size_t i) { return (int)i; }), {0, 1, 2, 3}, "index", false); break;
  }
  COVER("create");
}
ENTRY(c08_range) {
  int start = sym<int>("start");
  int n = (int)pick("n", -4, 4);
  if (n > 0) ASSUME(start <= 2147483647 - n);
  if (n < 0) ASSUME(start >= -2147483647 - n);
  L w;
  for (int i = 0; i < (n < 0 ? -n : n); i++) w.push_back(n < 0 ? start - i : start + i);
  agree(seq::range(start, start + n), w, "range counts from start to end, end excluded");
  COVER("range");
}
ENTRY(c08_range_u8) {
  uint8_t start = sym<uint8_t>("start");
  int n = (int)pick("n", 0, 4);
  ASSUME((int)start + n <= 255);
  L w;
  for (int i = 0; i < n; i++) w.push_back(start + i);
  agree(seq::map(seq::range<uint8_t>(start, (uint8_t)(start + n)), [](uint8_t x) { return (int)x; }), w, "range counts from start to end, end excluded");
  COVER("range");
}
ENTRY(c08_subranges) {
  size_t a = (size_t)pick("start", 0, 3), b = (size_t)pick("end", 0, 4);
  if (b < a) return;
  auto s = seq::subranges(a, b);
  for (size_t len = b - a; len >= 1; len--)
    for (size_t st = a; st + len <= b; st++) {
      auto m = s.next();
      CHECK(m && m->first == st && m->second == st + len, "subranges yields every non-empty subrange, longest first");
    }
  CHECK(!s.next(), "subranges yields nothing else");
  COVER("subranges");
}
ENTRY(c08_ops) {
  L l = symList((int)sym_param("len", 3));
  int t = sym<int>("threshold");
  switch (pick("kind", 0, 8)) {
  case 0: CHECK(seq::length(fromList(l)) == l.size(), "length"); break;
  case 1: { L got; seq::forEach(fromList(l), [&](int x) { got.push_back(x); }); CHECK(got.size() == l.size(), "forEach visits every element"); for (size_t i = 0; i < l.size() && i < got.size(); i++) CHECK(got[i] == l[i], "forEach visits every element in order"); break; }
  case 2: { auto m = seq::last(fromList(l)); CHECK((bool)m == !l.empty(), "last"); if (m && !l.empty()) CHECK(*m == l.back(), "last is the last element"); break; }
  case 3: { bool want = false; for (int x : l) want = either(want, x == t); CHECK(seq::contains(fromList(l), t) == want, "contains"); break; }
  case 4: { bool want = true; for (int x : l) want = both(want, x < t); CHECK(seq::all(fromList(l), [=](int x) { return x < t; }) == want, "all"); break; }
  case 5: { bool want = false; for (int x : l) want = either(want, x < t); CHECK(seq::any(fromList(l), [=](int x) { return x < t; }) == want, "any"); break; }
  case 6: { size_t i = (size_t)pick("at", 0, 4); auto m = seq::at(fromList(l), i); CHECK((bool)m == (i < l.size()), "at exists exactly inside the sequence"); if (m && i < l.size()) CHECK(*m == l[i], "at yields the element at that position"); break; }
  case 7: { L r = symList((int)sym_param("len", 3)); bool want = r.size() == l.size(); for (size_t i = 0; i < l.size() && i < r.size(); i++) want = both(want, l[i] == r[i]); CHECK((fromList(l) == fromList(r)) == want, "equality"); CHECK((fromList(l) != fromList(r)) == !want, "inequality"); break; }
  case 8: { L got; for (auto x : fromList(l)) got.push_back(x); CHECK(got.size() == l.size(), "iteration visits every element"); for (size_t i = 0; i < l.size() && i < got.size(); i++) CHECK(got[i] == l[i], "iteration visits every element in order"); break; }
  }
  COVER("ops");
}
// an exception while producing an element ends the sequence there
ENTRY(c08_throw) {
  L l = symList((int)sym_param("len", 3));
  int bad = sym<int>("bad"), t = sym<int>("threshold");
  auto chk = [=](int x) { if (x == bad) throw std::runtime_error("x"); return x < t; };
  Seq<int> s;
  L w;
  switch (pick("kind", 0, 6)) {
  case 0: s = seq::map(fromList(l), [=](int x) { chk(x); return x ^ 1; }); for (int x : l) { if (x == bad) break; w.push_back(x ^ 1); } break;
  case 1: s = seq::filter(fromList(l), chk); for (int x : l) { if (x == bad) break; if (x < t) w.push_back(x); } break;
  case 2: s = seq::takeWhile(fromList(l), chk); for (int x : l) { if (x == bad || !(x < t)) break; w.push_back(x); } break;
  case 3: { s = seq::dropWhile(fromList(l), chk); size_t i = 0; for (; i < l.size(); i++) { if (l[i] == bad) { i = l.size(); break; } if (!(l[i] < t)) break; } for (; i < l.size(); i++) w.push_back(l[i]); break; }
  case 4: s = seq::mapcat(fromList(l), [=](int x) { return chk(x) ? seq::just(x, x) : Seq<int>(); }); for (int x : l) { if (x == bad) break; if (x < t) { w.push_back(x); w.push_back(x); } } break;
  case 5: s = seq::mapMaybe(fromList(l), [=](int x) -> Maybe<int> { if (chk(x)) return x; return Nothing; }); for (int x : l) { if (x == bad) break; if (x < t) w.push_back(x); } break;
  // the failing inner sequence ends, the outer one goes on
  case 6: s = seq::concat(seq::map(fromList(l), [=](int x) { chk(x); return x; }), seq::just(7)); for (int x : l) { if (x == bad) break; w.push_back(x); } w.push_back(7); break;
  }
  agree(std::move(s), w, "an exception ends the sequence at that point");
  COVER("throw");
}
