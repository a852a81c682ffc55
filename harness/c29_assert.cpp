// C29: assertion macros test their condition once and report both sides.
#include <rapidcheck.h>
#include <new>
#include <typeinfo>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include "sym.h"
#include "common.h"
using namespace rc;
using detail::CaseResult;
namespace {
using Type = CaseResult::Type;
int evaluated = 0, compared = 0;
// an operand that shows as one character and counts
struct Op {
  char c;
  bool operator!() const { compared++; return c == 'a'; }
  explicit operator bool() const { compared++; return c != 'a'; }
};
void showValue(const Op &o, std::ostream &os) { os << o.c; }
#define OP(op) bool operator op(const Op &a, const Op &b) { compared++; return a.c op b.c; }
OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
// arithmetic gives another operand
#define AR(op, e) Op operator op(const Op &a, const Op &b) { compared++; return Op{(char)('a' + ((e) & 7))}; }
AR(+, (a.c - 'a') + (b.c - 'a')) AR(-, a.c - b.c) AR(*, (a.c - 'a') * (b.c - 'a')) AR(/, (a.c - 'a') / 2) AR(%, (a.c - 'a') + 1)
AR(<<, a.c + 1) AR(>>, a.c - 1) AR(&, a.c & b.c) AR(|, a.c | b.c) AR(^, a.c ^ b.c)
Op opnd() {
  char c = sym<char>("c");
  ASSUME(both(c >= 'a', c <= 'h'));
  return Op{c};
}
template <typename T> const T &once(const T &x) { evaluated++; return x; }
struct Outcome {
  bool threw = false;
  Type type = Type::Success;
  std::string text;
  int line = 0;
};
// runs a macro; the rest of the body runs when it lets the case continue
#define RUN(o, ...)                                                            \
  do {                                                                         \
    o = Outcome();                                                             \
    evaluated = compared = 0;                                                  \
    o.line = __LINE__;                                                         \
    bool after = false;                                                        \
    try { __VA_ARGS__; after = true; }                                         \
    catch (const CaseResult &r) { o.threw = true; o.type = r.type; o.text = r.description; } \
    CHECK(after != o.threw, "the case continues exactly when there is no verdict"); \
  } while (false)
std::string head(const Outcome &o, const std::string &src) { return std::string(__FILE__) + ":" + std::to_string(o.line) + ":\n" + src; }
// the verdict of a checked expression: continue (cont) or t with the expansion
void judge(const Outcome &o, bool cont, Type t, const std::string &src, const std::string &expansion) {
  CHECK(o.threw == !cont, "the case continues exactly when the condition holds");
  if (!o.threw) { COVER("continue"); return; }
  CHECK(o.type == t, "the verdict is that of the macro");
  CHECK(eqStr(o.text, head(o, src) + "\n\nExpands to:\n" + expansion), "the message has the source expression and its operands");
  COVER("end");
}
void judgeText(const Outcome &o, bool cont, Type t, const std::string &src, const std::string &extra) {
  CHECK(o.threw == !cont, "the case continues exactly when the condition holds");
  if (!o.threw) return;
  CHECK(o.type == t, "the verdict is that of the macro");
  CHECK(eqStr(o.text, head(o, src) + (extra.empty() ? "" : "\n\n" + extra)), "the message has the source expression");
}
std::string S(const Op &a) { return std::string(1, a.c); }
} // namespace
// every comparison, in every macro
#define ALL(n, expr, holds, expansion)                                         \
  do {                                                                         \
    bool hold_ = (holds);                                                           \
    std::string exp_ = (expansion);                                              \
    switch (macro) {                                                           \
    case 0: RUN(o, RC_ASSERT(expr)); judge(o, hold_, Type::Failure, "RC_ASSERT(" #expr ")", exp_); break; \
    case 1: RUN(o, RC_ASSERT_FALSE(expr)); judge(o, !hold_, Type::Failure, "RC_ASSERT_FALSE(" #expr ")", exp_); break; \
    case 2: RUN(o, RC_PRE(expr)); judge(o, hold_, Type::Discard, "RC_PRE(" #expr ")", exp_); break; \
    default: RUN(o, RC_SUCCEED_IF(expr)); judge(o, !hold_, Type::Success, "RC_SUCCEED_IF(" #expr ")", exp_); break; \
    }                                                                          \
    CHECK(evaluated == (n), "every operand is evaluated once");                \
  } while (false)
ENTRY(c29_compare) {
  Op a = opnd(), b = opnd();
  int macro = (int)pick("macro", 0, 3);
  Outcome o;
  switch (pick("op", 0, 7)) {
  case 0: ALL(2, once(a) == once(b), a.c == b.c, S(a) + " == " + S(b)); break;
  case 1: ALL(2, once(a) != once(b), a.c != b.c, S(a) + " != " + S(b)); break;
  case 2: ALL(2, once(a) < once(b), a.c < b.c, S(a) + " < " + S(b)); break;
  case 3: ALL(2, once(a) > once(b), a.c > b.c, S(a) + " > " + S(b)); break;
  case 4: ALL(2, once(a) <= once(b), a.c <= b.c, S(a) + " <= " + S(b)); break;
  case 5: ALL(2, once(a) >= once(b), a.c >= b.c, S(a) + " >= " + S(b)); break;
  case 6: { // a single operand
    ALL(1, once(a), a.c != 'a', S(a));
    break;
  }
  default: {
    bool t = a.c < b.c;
    ALL(1, !once(t), !t, t ? "false" : "true");
    break;
  }
  }
  CHECK(compared <= 1, "the condition is tested once");
  if (0) { COVER("continue"); COVER("end"); }
}
ENTRY(c29_operators) {
  Op a = opnd(), b = opnd(), c = opnd();
  int macro = (int)pick("macro", 0, 3);
  Outcome o;
#define ARITH(k, op)                                                           \
  case k: {                                                                    \
    bool holds = ((a op b) == c);                                              \
    ALL(3, once(a) op once(b) == once(c), holds, S(a) + " " #op " " + S(b) + " == " + S(c)); \
    CHECK(compared == 2, "the condition is tested once");                      \
    break;                                                                     \
  }
  switch (pick("op", 0, 6)) {
    ARITH(0, +) ARITH(1, -) ARITH(2, *) ARITH(3, /) ARITH(4, %) ARITH(5, <<)
  default: ARITH(7, >>) break;
  }
  if (0) { COVER("continue"); COVER("end"); }
}
ENTRY(c29_bits) {
  uint8_t x = sym<uint8_t>("x"), y = sym<uint8_t>("y");
  ASSUME(both(x < 8, y < 8));
  x = (uint8_t)sym_conc(x);
  y = (uint8_t)sym_conc(y);
  bool p = x > 3, q = y > 3;
  int macro = (int)pick("macro", 0, 3);
  std::string X = toString((int)x), Y = toString((int)y), P = toString(p), Q = toString(q);
  Outcome o;
  switch (pick("op", 0, 6)) {
  case 0: ALL(2, once(x) & once(y), (x & y) != 0, X + " & " + Y); break;
  case 1: ALL(2, once(x) | once(y), (x | y) != 0, X + " | " + Y); break;
  case 2: ALL(2, once(x) ^ once(y), (x ^ y) != 0, X + " ^ " + Y); break;
  case 3: ALL(2, once(p) && once(q), both(p, q), P + " && " + Q); break;
  case 4: ALL(2, once(p) || once(q), either(p, q), P + " || " + Q); break;
  case 5: ALL(3, once(x) + once(y) > once(x), x + y > x, X + " + " + Y + " > " + X); break;
  default: ALL(3, once(x) - 4 < once(y) - 4 || once(p), (x - 4 < y - 4) | (int)p, X + " - 4 < " + toString(y - 4) + " || " + P); break;
  }
  if (0) { COVER("continue"); COVER("end"); }
}
// verdicts follow the built-in operators for every value of the operands
ENTRY(c29_values) {
  int i = sym<int>("i"), j = sym<int>("j");
  unsigned u = sym<unsigned>("u");
  int64_t l = sym<int64_t>("l");
  uint8_t c = sym<uint8_t>("c");
  int8_t d = sym<int8_t>("d");
  bool holds = false, threw = false;
  // the message is not looked at here
#define V(k, e) case k: holds = (e) ? true : false; threw = !static_cast<bool>(RC_INTERNAL_CAPTURE(e).value()); break;
  switch (pick("expr", 0, 13)) {
    V(0, i < j) V(1, i < (int)u) V(2, u < j + 0u) V(3, l == i) V(4, c > d) V(5, c + d == i) V(6, i - l < 0) V(7, u - 1 > u)
    V(8, (i & j) == i) V(9, c << 3 == i) V(10, i >> 3 == j) V(11, l * 2 == l) V(12, c ^ d) V(13, i)
  }
  CHECK(holds == !threw, "the condition has the value of the expression");
  COVER("value");
}
// other kinds of operands
ENTRY(c29_kinds) {
  int macro = (int)pick("macro", 0, 3);
  Outcome o;
  std::string s(1, opnd().c), t(1, opnd().c);
  std::vector<Op> v{opnd()}, w{opnd()};
  int x = 1;
  int *p = pick("null", 0, 1) ? nullptr : &x, *q = &x;
  std::string P = toString(p), Q = toString(q);
  switch (pick("kind", 0, 4)) {
  case 0: ALL(2, once(s) == once(t), eqStr(s, t), "\"" + s + "\" == \"" + t + "\""); break;
  case 1: ALL(1, once(s) == "b", s[0] == 'b', "\"" + s + "\" == \"b\""); break;
  case 2: ALL(2, once(v) == once(w), v[0].c == w[0].c, "[" + S(v[0]) + "] == [" + S(w[0]) + "]"); break;
  case 3: ALL(2, once(p) == once(q), p == q, P + " == " + Q); break;
  default: ALL(1, once(p), p != nullptr, P); break;
  }
  if (0) { COVER("continue"); COVER("end"); }
}
// the unconditional forms
ENTRY(c29_unconditional) {
  Outcome o;
  std::string m;
  int n = (int)pick("len", 0, 3);
  for (int i = 0; i < n; i++) m += sym<char>("m");
  switch (pick("macro", 0, 5)) {
  case 0: RUN(o, RC_FAIL(once(m))); judgeText(o, false, Type::Failure, "RC_FAIL(once(m))", m); break;
  case 1: RUN(o, RC_SUCCEED(once(m))); judgeText(o, false, Type::Success, "RC_SUCCEED(once(m))", m); break;
  case 2: RUN(o, RC_DISCARD(once(m))); judgeText(o, false, Type::Discard, "RC_DISCARD(once(m))", m); break;
  case 3: RUN(o, RC_FAIL()); evaluated++; judgeText(o, false, Type::Failure, "RC_FAIL()", ""); break;
  case 4: RUN(o, RC_SUCCEED()); evaluated++; judgeText(o, false, Type::Success, "RC_SUCCEED()", ""); break;
  default: RUN(o, RC_DISCARD()); evaluated++; judgeText(o, false, Type::Discard, "RC_DISCARD()", ""); break;
  }
  CHECK(evaluated == 1, "the message is evaluated once");
  COVER("verdict");
}
namespace {
struct Base { virtual ~Base() {} };
struct Derived : Base {};
struct Other {};
int thrower(int how) {
  evaluated++;
  switch (how) {
  case 0: return 0;
  case 1: throw Base();
  case 2: throw Derived();
  case 3: throw Other();
  case 4: throw 5;
  case 5: throw std::out_of_range("x");
  case 6: throw std::runtime_error("y");
  case 7: throw CaseResult(Type::Discard, "inner");
  case 8: throw std::bad_alloc();
  case 9: throw std::string("text");
  case 10: throw "text";
  case 11: throw std::invalid_argument("z");
  case 12: throw std::bad_cast();
  case 13: throw GenerationFailure("no");
  case 14: throw 'c';
  case 15: throw (unsigned long)5;
  default: throw CaseResult(Type::Failure, "inner");
  }
}
} // namespace
ENTRY(c29_throws) {
  Outcome o;
  int how = (int)pick("how", 0, 16);
  std::string none = "No exception was thrown.";
#define AS(T, matches)                                                         \
  do {                                                                         \
    RUN(o, RC_ASSERT_THROWS_AS(thrower(how), T));                              \
    judgeText(o, (matches), Type::Failure, "RC_ASSERT_THROWS_AS(thrower(how), " #T ")", how == 0 ? none : "Thrown exception did not match " #T "."); \
  } while (false)
  switch (pick("macro", 0, 10)) {
  case 0: RUN(o, RC_ASSERT_THROWS(thrower(how))); judgeText(o, how != 0, Type::Failure, "RC_ASSERT_THROWS(thrower(how))", none); break;
  case 1: AS(Base, how == 1 || how == 2); break;
  case 2: AS(Derived, how == 2); break;
  case 3: AS(Other, how == 3); break;
  case 4: AS(int, how == 4); break;
  case 5: AS(std::exception, how == 5 || how == 6 || how == 8 || (how >= 11 && how <= 13)); break;
  case 6: AS(std::logic_error, how == 5 || how == 11); break;
  case 7: AS(CaseResult, how == 7 || how == 16); break;
  case 8: AS(std::bad_alloc, how == 8); break;
  case 9: AS(std::string, how == 9); break;
  default: AS(GenerationFailure, how == 13); break;
  }
  CHECK(evaluated == 1, "the expression is evaluated once");
  COVER("throws");
}
// the macros inside a property give the case its verdict
ENTRY(c29_property) {
  int x = (int)pick("x", 0, 3);
  bool reached = false;
  auto p = detail::toProperty([&] {
    RC_PRE(x != 0);
    RC_ASSERT(x != 1);
    RC_SUCCEED_IF(x == 2);
    reached = true;
    RC_FAIL("end");
  });
  auto d = p(h::rnd(1), 10).value();
  CHECK(d.result.type == (x == 0 ? Type::Discard : x == 2 ? Type::Success : Type::Failure), "the case gets the verdict of the macro");
  CHECK(reached == (x == 3), "a macro that decides ends the case");
  COVER("property");
}
