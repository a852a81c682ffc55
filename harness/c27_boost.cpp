// C27, C17: the boost::optional support shows and generates like Maybe.
#include <boost/optional.hpp>
#include <boost/optional/optional_io.hpp>
#include <rapidcheck.h>
#include <rapidcheck/boost.h>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
struct Mark { char c; };
void showValue(const Mark &m, std::ostream &os) { os << m.c; }
std::ostream &operator<<(std::ostream &os, const Mark &m) { return os << '<' << m.c << '>'; }
} // namespace
ENTRY(c27_boost_optional) {
  char c = sym<char>("c");
  ASSUME(both(c >= 'a', c <= 'z'));
  boost::optional<Mark> some(Mark{c}), none;
  CHECK(eqStr(toString(some), std::string(1, c)), "a boost::optional shows what it holds");
  CHECK(eqStr(toString(none), "boost::none"), "an absent boost::optional is shown as such");
  CHECK(eqStr(toString(std::make_pair(some, none)), std::string("(") + c + ", boost::none)"), "boost::optional nests");
  std::ostringstream os;
  showValue(some, os);
  CHECK(eqStr(os.str(), std::string(1, c)), "showValue shows a boost::optional");
  COVER("optional");
}
namespace {
Shrinkable<uint8_t> down(uint8_t v, int depth) {
  return shrinkable::shrinkRecur(v, [=](uint8_t x) { return x >= 1 ? seq::just<uint8_t>((uint8_t)(x >> 1), (uint8_t)(x - 1)) : Seq<uint8_t>(); });
}
void sameTree(const Shrinkable<boost::optional<uint8_t>> &a, const Shrinkable<Maybe<uint8_t>> &b, int depth) {
  auto x = a.value();
  auto y = b.value();
  CHECK((bool)x == (bool)y, "a boost::optional is absent when Maybe is");
  if (x && y) CHECK(*x == *y, "a boost::optional holds what Maybe does");
  if (!depth) return;
  auto sa = a.shrinks();
  auto sb = b.shrinks();
  for (;;) {
    auto m = sa.next();
    auto n = sb.next();
    CHECK((bool)m == (bool)n, "a boost::optional has the shrinks of Maybe");
    if (!m || !n) return;
    sameTree(*m, *n, depth - 1);
  }
}
} // namespace
ENTRY(c17_boost_optional) {
  int size = (int)range("size", 0, 3);
  Gen<uint8_t> src([=](const Random &r, int s) {
    Random c(r);
    return down((uint8_t)((c.split().next() + s) & 3), 2);
  });
  auto g = gen::boost::optional(src);
  auto h1 = gen::maybe(src);
  sameTree(g(h::rnd(1), size), h1(h::rnd(1), size), 2);
  COVER("optional");
}
