// C22: generated command sequences are valid in every state, shrinks included.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <algorithm>
#include "sym.h"
#include "common.h"
using namespace rc;
using rc::detail::CaseResult;
namespace {
constexpr int STATES = 2, KINDS = 3;
struct Sut {};
struct Model { int s; };
using Cmd = state::Command<Model, Sut>;
using CmdSP = std::shared_ptr<const Cmd>;
// which commands are allowed in which state is arbitrary
int allowed[STATES][KINDS];
bool allow(int s, int k) {
  if (!allowed[s][k]) allowed[s][k] = sym<bool>("allowed") ? 2 : 1;
  return allowed[s][k] == 2;
}
int step = 0; // how commands change the state
int applied(int s, int k) { return step == 0 ? (s + k) % STATES : step == 1 ? k % STATES : (s * k + 1) % STATES; }
bool applyDiscards = false; // an old-style command asserts in apply
int wrong = 0;
struct Do : Cmd {
  int k;
  Random from;
  Do(int kind, const Random &r) : k(kind), from(r) {}
  void checkPreconditions(const Model &m) const override { RC_PRE(allow(m.s, k)); }
  void apply(Model &m) const override {
    if (applyDiscards && k == 1) RC_DISCARD("old");
    if (!allow(m.s, k)) wrong++;
    m.s = applied(m.s, k);
  }
  void show(std::ostream &os) const override { os << "Do" << k; }
};
int size0 = 0;
Shrinkable<CmdSP> tree(int k, const Random &r) {
  return shrinkable::shrink([=]() -> CmdSP { return std::make_shared<Do>(k, r); }, [=](CmdSP) {
    std::vector<Shrinkable<CmdSP>> v;
    for (int j = 0; j < k; j++) v.push_back(tree(j, r));
    return seq::fromContainer(std::move(v));
  });
}
int failing = 0; // how generation of a command fails: 0 never, 1 generation failure, 2 discard
// the command a stream gives in a state
Shrinkable<CmdSP> generate(int s, const Random &random, int size) {
  CHECK(size == size0, "commands are generated at the size of the sequence");
  Random r(random);
  int w = (int)sym_conc(r.next() % (KINDS + (failing ? 1 : 0)));
  if (w == KINDS) {
    if (failing == 1) throw GenerationFailure("none");
    throw CaseResult(CaseResult::Type::Discard, "none");
  }
  return tree((w + s) % KINDS, random);
}
auto genFunc = [](const Model &m) {
  int s = m.s;
  return Gen<CmdSP>([s](const Random &r, int size) { return generate(s, r, size); });
};
// the same by the description: entries with their streams
struct Entry { Random r; Shrinkable<CmdSP> s; };
using Entries = std::vector<Entry>;
const Do &as(const CmdSP &c) { return static_cast<const Do &>(*c); }
int kind(const Entry &e) { return as(e.s.value()).k; }
Entries repaired(const Entries &es) {
  Entries out;
  int s = 0;
  for (auto &e : es) {
    Entry x = e;
    if (!allow(s, kind(x))) {
      // generated anew from its stream, or dropped
      try {
        x.s = generate(s, x.r, size0);
      } catch (const GenerationFailure &) { continue; } catch (const CaseResult &) { continue; }
      if (!allow(s, kind(x))) continue;
    }
    s = applied(s, kind(x));
    out.push_back(x);
  }
  return out;
}
using Cmds = state::Commands<Cmd>;
void checkValue(const Cmds &cs) {
  int s = 0;
  bool ok = true;
  for (auto &c : cs) {
    ok = ok && allow(s, as(c).k);
    s = applied(s, as(c).k);
  }
  CHECK(ok, "every command's precondition holds in the state reached");
  CHECK((int)cs.size() <= size0 + 1, "there are no more commands than the size allows");
  CHECK(wrong == 0, "a command is only applied in a state that allows it");
}
bool sameKinds(const Cmds &cs, const Entries &es) {
  if (cs.size() != es.size()) return false;
  for (size_t i = 0; i < cs.size(); i++)
    if (as(cs[i]).k != kind(es[i])) return false;
  return true;
}
void checkTree(const Shrinkable<Cmds> &s, const Entries &es, int depth) {
  auto v = s.value();
  checkValue(v);
  CHECK(sameKinds(v, es), "a shrink removes a run of commands or shrinks a single one, later commands only change when they must");
  if (depth == 0) return;
  auto seq = s.shrinks();
  size_t n = es.size();
  for (size_t len = n; len >= 1; len--)
    for (size_t at = 0; at + len <= n; at++) {
      Entries x(es.begin(), es.begin() + (long)at);
      x.insert(x.end(), es.begin() + (long)(at + len), es.end());
      x = repaired(x);
      auto y = seq.next();
      CHECK((bool)y, "every removal of a run is offered");
      if (!y) return;
      checkTree(*y, x, depth - 1);
      COVER("removal");
    }
  int s0 = 0;
  for (size_t i = 0; i < n; i++) {
    auto ss = es[i].s.shrinks();
    for (;;) {
      auto z = ss.next();
      if (!z) break;
      if (!allow(s0, as(z->value()).k)) continue; // never offered
      Entries x = es;
      x[i].s = *z;
      x = repaired(x);
      auto y = seq.next();
      CHECK((bool)y, "every valid shrink of a single command is offered");
      if (!y) return;
      checkTree(*y, x, depth - 1);
      COVER("single");
    }
    s0 = applied(s0, kind(es[i]));
  }
  CHECK(!seq.next(), "nothing else is offered");
}
} // namespace
ENTRY(c22_commands) {
  size0 = (int)pick("size", 0, sym_param("size", 1));
  step = sym_param("step", -1) >= 0 ? (int)sym_param("step", -1) : (int)pick("step", 0, 2);
  failing = (int)pick("failing", 0, sym_param("failing", 1));
  if (failing && sym_param("failing", 1) == 1) failing = 1 + (step & 1);
  auto g = state::gen::commands(Model{0}, genFunc);
  Random r = h::rnd(1), before(r);
  bool gave = false;
  try {
    auto s = g(r, size0);
    CHECK(r == before, "the caller's random state is not disturbed");
    auto v = s.value();
    checkValue(v);
    CHECK(v.size() >= 1, "a sequence has at least one command");
    COVER("sequence");
    Entries es;
    int m = 0;
    for (auto &c : v) {
      es.push_back(Entry{as(c).from, generate(m, as(c).from, size0)});
      CHECK(kind(es.back()) == as(c).k, "commands come from the generator for the state reached");
      m = applied(m, as(c).k);
    }
    for (size_t i = 0; i < es.size(); i++)
      for (size_t j = 0; j < i; j++) CHECK(!(es[i].r == es[j].r), "commands have streams of their own");
    checkTree(s, es, (int)sym_param("depth", 1));
    // again
    CHECK(sameKinds(g(r, size0).value(), es), "a sequence is determined by stream and size");
    CHECK(sameKinds(s.value(), es), "a sequence is determined by stream and size");
  } catch (const GenerationFailure &) {
    gave = true;
    COVER("none");
  }
  if (gave) { // only when some reachable state allows nothing that is generated
    bool stuck = false;
    for (int s = 0; s < STATES; s++) {
      int n = 0;
      for (int k = 0; k < KINDS; k++) n += allowed[s][k] == 2;
      stuck = stuck || n < KINDS;
    }
    CHECK(stuck || failing, "generation fails only when valid commands cannot be found");
  }
  if (0) { COVER("removal"); COVER("single"); }
}
// three commands, of which some become invalid when the first ones go
ENTRY(c22_three) {
  size0 = 2;
  step = sym_param("step", -1) >= 0 ? (int)sym_param("step", -1) : (int)pick("step", 0, 2);
  for (int k = 0; k < KINDS; k++) allowed[0][k] = 2; // the start allows everything
  try {
    auto s = state::gen::commands(Model{0}, genFunc)(h::rnd(2), size0);
    auto v = s.value();
    if (v.size() != 3) return;
    Entries es;
    int m = 0;
    for (auto &c : v) {
      es.push_back(Entry{as(c).from, generate(m, as(c).from, size0)});
      m = applied(m, as(c).k);
    }
    checkTree(s, es, 1);
  } catch (const GenerationFailure &) {}
  if (0) { COVER("removal"); COVER("single"); }
}
// two levels of shrinks, in which shrunk commands meet changed states
ENTRY(c22_deep) {
  size0 = 1;
  step = sym_param("step", -1) >= 0 ? (int)sym_param("step", -1) : (int)pick("step", 0, 2);
  for (int k = 0; k < KINDS; k++) allowed[0][k] = 2; // the start allows everything
  auto g = state::gen::commands([] { return Model{0}; }, genFunc);
  try {
    auto s = g(h::rnd(2), size0);
    auto v = s.value();
    Entries es;
    int m = 0;
    for (auto &c : v) {
      es.push_back(Entry{as(c).from, generate(m, as(c).from, size0)});
      m = applied(m, as(c).k);
    }
    checkTree(s, es, 2);
  } catch (const GenerationFailure &) {}
  if (0) { COVER("removal"); COVER("single"); }
}
// a sequence can be as long as the size allows, and as short as one command
ENTRY(c22_length) {
  size0 = (int)pick("size", 0, sym_param("size", 6));
  step = 0;
  for (auto &row : allowed)
    for (int &a : row) a = 2;
  auto v = state::gen::commands(Model{0}, genFunc)(h::rnd(3), size0).value();
  checkValue(v);
  CHECK(v.size() >= 1, "a sequence has at least one command");
  if (v.size() == 1) COVER("short");
  if ((int)v.size() == size0 + 1) COVER("long");
}
// nothing is ever allowed, or the check itself fails
ENTRY(c22_impossible) {
  size0 = (int)pick("size", 0, 3);
  for (auto &row : allowed)
    for (int &a : row) a = 1;
  failing = (int)pick("failing", 0, 2);
  bool threw = false;
  try { (void)state::gen::commands(Model{0}, genFunc)(h::rnd(4), size0).value(); }
  catch (const GenerationFailure &) { threw = true; }
  CHECK(threw, "a failure to find a valid command is a generation failure");
  COVER("impossible");
}
// a command that asserts in apply makes the generation fail instead of giving an invalid sequence
ENTRY(c22_apply) {
  size0 = (int)pick("size", 0, 2);
  step = 0;
  applyDiscards = true;
  for (auto &row : allowed)
    for (int &a : row) a = 2;
  try {
    auto s = state::gen::commands(Model{0}, genFunc)(h::rnd(5), size0);
    for (auto &c : s.value()) CHECK(as(c).k != 1, "a command that cannot be applied is not generated");
    auto seq = s.shrinks();
    for (;;) {
      auto x = seq.next();
      if (!x) break;
      for (auto &c : x->value()) CHECK(as(c).k != 1, "a command that cannot be applied is not generated");
    }
    COVER("fine");
  } catch (const GenerationFailure &) { COVER("failure"); }
}
// a failure or another exception in the precondition is passed on
namespace {
struct Bad : Cmd {
  int how;
  explicit Bad(int h) : how(h) {}
  void checkPreconditions(const Model &) const override {
    if (how == 0) RC_FAIL("failed");
    if (how == 1) throw 7;
    RC_SUCCEED("done");
  }
};
} // namespace
ENTRY(c22_errors) {
  size0 = 1;
  int how = (int)pick("how", 0, 2), got = -1;
  try {
    (void)state::gen::commands(Model{0}, [=](const Model &) { return gen::just(CmdSP(std::make_shared<Bad>(how))); })(h::rnd(6), size0).value();
  } catch (const CaseResult &r) { got = r.type == CaseResult::Type::Failure ? 0 : r.type == CaseResult::Type::Success ? 2 : 3; } catch (int x) { got = x == 7 ? 1 : 3; }
  CHECK(got == how, "other outcomes of a precondition are passed on");
  COVER("errors");
}
// choosing among command types
namespace {
template <int N> struct Kind : Cmd { int arg = -1; bool drawn = false; };
struct First : Kind<0> { First(const Model &m) { arg = m.s; drawn = *gen::arbitrary<bool>(); } };
struct Second : Kind<1> { Second() { drawn = *gen::arbitrary<bool>(); RC_PRE(drawn); } };
struct Third : Kind<2> { Third(const Model &m) { arg = m.s + 10; } };
} // namespace
ENTRY(c22_one_of) {
  int st = sym<int>("state"), size = (int)pick("size", 0, 1) * 50;
  Model m{st};
  int old = (int)pick("form", 0, 1);
  auto g = old ? state::gen::execOneOf<First, Second, Third>(m) : state::gen::execOneOfWithArgs<First, Second, Third>()(m);
  int kindOf = -1;
  try {
    auto s = g(h::rnd(7), size);
    auto look = [&](const CmdSP &c) {
      if (auto f = dynamic_cast<const First *>(c.get())) { CHECK(f->arg == st, "a command is constructed with the state if it takes it"); return 0; }
      if (auto f = dynamic_cast<const Second *>(c.get())) { CHECK(f->arg == -1 && f->drawn, "a command that discards itself is not produced"); return 1; }
      auto f = dynamic_cast<const Third *>(c.get());
      CHECK(f != nullptr, "only the given commands are produced");
      if (f) CHECK(f->arg == wrong + st + 10, "a command is constructed with the state if it takes it");
      return 2;
    };
    auto v = s.value();
    kindOf = look(v);
    CHECK(look(s.value()) == kindOf, "the choice is deterministic");
    auto seq = s.shrinks();
    int n = 0;
    for (;;) {
      auto x = seq.next();
      if (!x) break;
      n++;
      try { CHECK(look(x->value()) == kindOf, "shrinking keeps the kind of command"); }
      catch (const CaseResult &r) { CHECK(r.type == CaseResult::Type::Discard && kindOf == 1, "only discards"); }
    }
    bool d = kindOf == 0 && static_cast<const First &>(*v).drawn;
    CHECK(n == (kindOf == 2 ? 0 : kindOf == 1 ? 1 : d ? 1 : 0), "values drawn by the command shrink");
    if (kindOf == 0) COVER("first");
    if (kindOf == 1) COVER("second");
    if (kindOf == 2) COVER("third");
  } catch (const CaseResult &r) {
    CHECK(r.type == CaseResult::Type::Discard, "a command that discards itself discards");
    COVER("discard");
  }
}
