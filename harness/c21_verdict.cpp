// C21: a property's verdict follows from what its body did.
#include <rapidcheck.h>
#include <algorithm>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include "sym.h"
#include "common.h"
#include "testing.h"
#include "rapidcheck/detail/ImplicitParam.h"
#include "rapidcheck/detail/PropertyContext.h"
using namespace rc;
using namespace rc::detail;
namespace {
using Type = CaseResult::Type;
CaseDescription run(const Property &p, uint64_t seed = 1, int size = 10) { return p(h::rnd(seed), size).value(); }
struct Odd {};
struct NoValue : GenerationFailure { using GenerationFailure::GenerationFailure; };
// a short text; its characters are arbitrary
std::string text(int len) {
  std::string s;
  for (int i = 0; i < len; i++) s += sym<char>("t");
  return s;
}
void expect(const CaseDescription &d, Type t, const std::string &message, const char *what) {
  CHECK(d.result.type == t, what);
  CHECK(eqStr(d.result.description, message), "the verdict comes with the corresponding message");
  CHECK(d.tags.empty(), "no tags were given");
}
void contains(const CaseDescription &d, Type t, const std::string &message, const char *what) {
  CHECK(d.result.type == t, what);
  auto &s = d.result.description;
  bool in = false;
  for (size_t i = 0; i + message.size() <= s.size(); i++) in = in || eqStr(s.substr(i, message.size()), message);
  CHECK(in, "the verdict comes with the corresponding message");
}
PropertyContext *ctx() { return ImplicitParam<param::CurrentPropertyContext>::value(); }
} // namespace
ENTRY(c21_returns) {
  std::string s = text((int)pick("len", 0, 3));
  bool b = sym<bool>("b");
  int t = (int)pick("type", 0, 2);
  switch (pick("kind", 0, 4)) {
  case 0: CHECK(run(toProperty([] {})).result.type == Type::Success, "returning normally is a success"); break;
  case 1: CHECK(run(toProperty([=] { return b; })).result.type == (b ? Type::Success : Type::Failure), "returning true is a success, returning false a failure"); break;
  case 2: {
    auto d = run(toProperty([=] { return s; }));
    if (s.empty()) CHECK(d.result.type == Type::Success, "an empty message is a success");
    else expect(d, Type::Failure, s, "a message is a failure");
    break;
  }
  case 3: expect(run(toProperty([=] { return CaseResult(h::TYPES[t], s); })), h::TYPES[t], s, "a returned verdict is the verdict"); break;
  default: { // a body with an argument
    auto d = run(toProperty([=](bool x) { return x == b; }));
    CHECK(d.result.type == Type::Success || d.result.type == Type::Failure, "a boolean is a success or a failure");
    CHECK(d.example().size() == 1, "the arguments are the counterexample");
    break;
  }
  }
  COVER("returns");
}
ENTRY(c21_throws) {
  std::string s = text((int)pick("len", 0, 3));
  int t = (int)pick("type", 0, 2);
  unsigned z = 0;
  for (char c : s) z |= (unsigned)(c == 0);
  switch (pick("kind", 0, 11)) {
  case 8: CHECK(run(toProperty([=] { throw std::bad_alloc(); })).result.type == Type::Failure, "any exception is a failure"); break;
  case 9: CHECK(run(toProperty([=]() -> bool { throw "text"; })).result.type == Type::Failure, "any exception is a failure"); break;
  case 10: ASSUME(!z); contains(run(toProperty([=] { throw NoValue(s); })), Type::Discard, s, "failing to generate is a discard"); break;
  case 11: CHECK(run(toProperty([=]() -> std::string { throw std::bad_cast(); })).result.type == Type::Failure, "any exception is a failure"); break;
  case 0: expect(run(toProperty([=] { throw CaseResult(h::TYPES[t], s); })), h::TYPES[t], s, "a thrown verdict is the verdict"); break;
  case 1: expect(run(toProperty([=] { throw s; })), Type::Failure, s, "a thrown message is a failure"); break;
  case 2: CHECK(run(toProperty([=] { throw 5; })).result.type == Type::Failure, "any exception is a failure"); break;
  case 3: CHECK(run(toProperty([=] { throw Odd(); })).result.type == Type::Failure, "any exception is a failure"); break;
  case 4: ASSUME(!z); contains(run(toProperty([=] { throw std::runtime_error(s); })), Type::Failure, s, "an exception is a failure"); break;
  case 5: ASSUME(!z); contains(run(toProperty([=]() -> bool { throw std::out_of_range(s); })), Type::Failure, s, "an exception is a failure"); break;
  case 6: ASSUME(!z); contains(run(toProperty([=] { throw GenerationFailure(s); })), Type::Discard, s, "failing to generate is a discard"); break;
  default: ASSUME(!z); contains(run(toProperty([=] { *Gen<int>([=](const Random &, int) -> Shrinkable<int> { throw GenerationFailure(s); }); })), Type::Discard, s, "failing to generate is a discard"); break;
  }
  COVER("throws");
}
// several outcomes in one case
ENTRY(c21_several) {
  int n = (int)pick("n", 0, sym_param("n", 3));
  std::vector<int> types;
  std::vector<std::string> messages;
  for (int i = 0; i <= n; i++) {
    types.push_back((int)pick("outcome", 0, 2));
    messages.push_back(text((int)pick("len", 0, 1 + (i == 0))));
  }
  bool thrown = pick("thrown", 0, 1) != 0;
  std::string logged = text((int)pick("logged", 0, 1));
  auto d = run(toProperty([=]() -> CaseResult {
    if (!logged.empty()) ctx()->logStream() << logged;
    for (int i = 0; i < n; i++) ctx()->reportResult(CaseResult(h::TYPES[types[i]], messages[i]));
    CaseResult last(h::TYPES[types[n]], messages[n]);
    if (thrown) throw last;
    return last;
  }));
  // a discard outranks a failure, a failure outranks success
  int rank = 0;
  for (int t : types) {
    if (t == 2) rank = 2;
    if (t == 1 && rank == 0) rank = 1;
  }
  CHECK(d.result.type == h::TYPES[rank], "a discard outranks a failure, a failure outranks success");
  std::string want;
  int kept = 0;
  for (int i = 0; i <= n; i++) {
    if (types[i] != rank) continue;
    if (rank == 2 && kept) continue;      // the first discard
    if (rank == 0) { want.clear(); kept = 0; } // the last success
    if (kept++) want += "\n\n";
    want += messages[i];
  }
  if (!logged.empty()) want += "\n\nLog:\n" + logged;
  CHECK(eqStr(d.result.description, want), "the message is that of the deciding outcomes, in order, and the log is kept");
  COVER("several");
}
// logs, tags and drawn values keep their order, and the next case starts empty
ENTRY(c21_context) {
  std::string a = text(1), b = text(1);
  int t = (int)pick("type", 0, 2), first = (int)pick("first", 0, 1);
  // values are drawn by the property at a fixed stream, the body only sees which case it is in
  int run_ = 0;
  Property p = toProperty([&] {
    int me = run_++;
    bool x = *gen::just(true).as("one");
    if (me == 0 && first == 0) { RC_TAG(1); RC_LOG() << "early"; throw CaseResult(Type::Discard, "gone"); }
    RC_LOG() << a;
    RC_TAG(std::string("x"), 2);
    int y = *gen::just(7).as("two");
    RC_CLASSIFY(x && y == 7);
    RC_CLASSIFY(y != 7, "never");
    RC_CLASSIFY(y == 7, std::string("y"), 'c');
    RC_LOG(b);
    CaseResult r(h::TYPES[t], "message");
    if (t == 0) return;
    throw r;
  });
  if (first == 0) {
    auto d = run(p, 2, 10);
    CHECK(d.result.type == Type::Discard && d.tags == (Tags{"1"}), "tags are recorded before a discard");
    CHECK(eqStr(d.result.description, "gone\n\nLog:\nearly"), "logged text is recorded before a discard");
  }
  auto d = run(p, 1, 10);
  CHECK(d.result.type == h::TYPES[t], "the verdict of one case does not depend on another");
  std::string msg = t == 0 ? "no exceptions thrown" : "message";
  CHECK(eqStr(d.result.description, msg + "\n\nLog:\n" + a + b + "\n"), "logged text is kept in order");
  CHECK(d.tags == (Tags{"\"x\"", "2", "x && y == 7", "\"y\"", "99"}), "tags are kept in order");
  auto e = d.example();
  CHECK(e.size() == 2, "drawn values are kept");
  if (e.size() == 2) {
    CHECK(e[0].first == "one" && e[0].second == "true" && e[1].first == "two" && e[1].second == "7", "drawn values are kept in order");
  }
  // outside of a property, outcomes go nowhere
  CHECK(!ctx()->reportResult(CaseResult(Type::Failure, "x")), "outside of a case nothing is recorded");
  COVER("context");
}
// values that were drawn by the case are described by name or type, in order
ENTRY(c21_example) {
  int n = (int)pick("n", 0, sym_param("n", 3));
  int fail = (int)pick("fail", 0, n);
  uint64_t v[4];
  for (int i = 0; i < 4; i++) v[i] = sym_conc((uint64_t)sym<uint8_t>("v") & 1);
  Property p = toProperty([&] {
    for (int i = 0; i < n; i++) {
      if (i == fail) *Gen<int>([](const Random &, int) -> Shrinkable<int> { throw GenerationFailure("no"); }).as("bad");
      *gen::just((int)v[i]).as(h::nm(i));
    }
    if (n > 0) throw 3;
  });
  auto d = run(p);
  int drawn = std::min(n, fail);
  CHECK(d.result.type == (fail < n ? Type::Discard : n > 0 ? Type::Failure : Type::Success), "the case ends where the generation fails");
  auto e = d.example();
  CHECK((int)e.size() == drawn + (fail < n), "every draw is described");
  for (int i = 0; i < drawn && i < (int)e.size(); i++)
    CHECK(eqStr(e[i].first, h::nm(i)) && eqStr(e[i].second, v[i] ? "1" : "0"), "draws are described in order");
  COVER("example");
}
