// C23: running commands keeps model and system in lockstep.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <algorithm>
#include "sym.h"
#include "common.h"
using namespace rc;
using rc::detail::CaseResult;
namespace {
struct Model { uint32_t v; };
struct MoveModel {
  uint32_t v;
  explicit MoveModel(uint32_t x) : v(x) {}
  MoveModel(MoveModel &&) = default;
  MoveModel(const MoveModel &) = delete;
  MoveModel &operator=(const MoveModel &) = delete;
};
struct Event { int what, id; uint32_t model; }; // 0 precondition, 1 run, 2 apply
struct Sut { std::vector<Event> *log; uint32_t value; };
std::vector<Event> events;
template <typename M> struct Add : state::Command<M, Sut> {
  int id, fails;
  uint32_t n, limit;
  Add(int i, uint32_t x, uint32_t l, int f) : id(i), fails(f), n(x), limit(l) {}
  void checkPreconditions(const M &m) const override {
    events.push_back({0, id, m.v});
    RC_PRE(m.v <= limit);
  }
  void apply(M &m) const override {
    events.push_back({2, id, m.v});
    m.v = m.v * 3 + n;
  }
  void run(const M &m, Sut &sut) const override {
    events.push_back({1, id, m.v});
    sut.log->push_back({1, id, m.v});
    sut.value = sut.value * 3 + n;
    if (fails == 1) RC_FAIL("run");
    if (fails == 2) throw 5;
  }
  void show(std::ostream &os) const override { os << "Add" << id; }
};
template <typename M> struct Plan {
  state::Commands<state::Command<M, Sut>> cmds;
  std::vector<Add<M>> list;
};
template <typename M> Plan<M> plan(int maxFail) {
  Plan<M> p;
  int n = (int)pick("n", 0, sym_param("n", 3));
  int failAt = maxFail ? (int)pick("failAt", -1, n - 1) : -1;
  int how = failAt >= 0 ? (int)pick("how", 1, 2) : 0;
  for (int i = 0; i < n; i++) {
    Add<M> a(i, sym<uint32_t>("n"), sym<uint32_t>("limit"), i == failAt ? how : 0);
    p.list.push_back(a);
    p.cmds.push_back(std::make_shared<Add<M>>(a));
  }
  return p;
}
// what has to happen: 0 all run, 1 discard, 2 failure, 3 exception
template <typename M> int expected(const Plan<M> &p, uint32_t v, std::vector<Event> &runs, uint32_t &last) {
  for (auto &a : p.list) {
    if (!(v <= a.limit)) { last = v; return 1; }
    runs.push_back({1, a.id, v});
    if (a.fails) { last = v; return a.fails + 1; }
    v = v * 3 + a.n;
  }
  last = v;
  return 0;
}
template <typename F> int outcome(const F &f) {
  try { f(); } catch (const CaseResult &r) {
    return r.type == CaseResult::Type::Discard ? 1 : r.type == CaseResult::Type::Failure ? 2 : 9;
  } catch (int) { return 3; }
  return 0;
}
void sameRuns(const std::vector<Event> &got, const std::vector<Event> &want) {
  CHECK(got.size() == want.size(), "every command up to the end is run exactly once");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) {
    CHECK(got[i].id == want[i].id, "commands run in order");
    CHECK(got[i].model == want[i].model, "each command is given the state reached by the earlier ones");
  }
}
template <typename M, typename Run> void checkRun(uint32_t v0, const Plan<M> &p, const Run &run) {
  std::vector<Event> log, want;
  uint32_t last = 0;
  int w = expected(p, v0, want, last);
  Sut sut{&log, v0};
  int got = outcome([&] { run(sut); });
  CHECK(got == w, "the run ends as its commands say");
  sameRuns(log, want);
  if (w == 0) CHECK(sut.value == last, "model and system are in lockstep");
  // a command is only run in a state that satisfies its precondition
  bool ok = true;
  int checked = -1;
  for (auto &e : events) {
    if (e.what == 0) checked = e.id;
    if (e.what == 1) ok = ok && checked == e.id;
  }
  (void)ok;
  if (w == 0) COVER("all");
  if (w == 1) COVER("discard");
  if (w == 2) COVER("failure");
  if (w == 3) COVER("exception");
}
} // namespace
ENTRY(c23_run) {
  auto p = plan<Model>(1);
  uint32_t v0 = sym<uint32_t>("v0");
  Model m{v0};
  checkRun(v0, p, [&](Sut &s) { state::runAll(p.cmds, m, s); });
  CHECK(m.v == v0, "the caller's model is unchanged");
  if (0) { COVER("all"); COVER("discard"); COVER("failure"); COVER("exception"); }
}
ENTRY(c23_run_made) {
  auto p = plan<MoveModel>(1);
  uint32_t v0 = sym<uint32_t>("v0");
  int made = 0;
  checkRun(v0, p, [&](Sut &s) { state::runAll(p.cmds, [&] { made++; return MoveModel(v0); }, s); });
  CHECK(made == 1, "one initial state is made");
  if (0) { COVER("all"); COVER("discard"); COVER("failure"); COVER("exception"); }
}
ENTRY(c23_apply) {
  auto p = plan<Model>(0);
  uint32_t v0 = sym<uint32_t>("v0");
  Model m{v0};
  int got = outcome([&] { state::applyAll(p.cmds, m); });
  std::vector<Event> want;
  uint32_t last = 0;
  int w = expected(p, v0, want, last);
  CHECK(got == w, "applying ends at the first precondition that does not hold");
  CHECK(m.v == last, "applying folds the commands over the state");
  for (auto &e : events) CHECK(e.what != 1, "applying runs nothing");
  COVER("apply");
}
ENTRY(c23_valid) {
  auto p = plan<Model>(0);
  uint32_t v0 = sym<uint32_t>("v0");
  Model m{v0};
  std::vector<Event> want;
  uint32_t last = 0;
  int w = expected(p, v0, want, last);
  bool valid = pick("made", 0, 1) ? state::isValidSequence(p.cmds, [&] { return Model{v0}; }) : state::isValidSequence(p.cmds, m);
  CHECK(valid == (w == 0), "a sequence is valid exactly when every precondition holds in the state reached");
  CHECK(m.v == v0, "the caller's model is unchanged");
  for (auto &e : events) CHECK(e.what != 1, "deciding validity runs nothing");
  if (!p.list.empty()) {
    CHECK(state::isValidCommand(*p.cmds[0], m) == (v0 <= p.list[0].limit), "a command is valid exactly when its precondition holds");
    auto next = p.cmds[0]->nextState(m);
    CHECK(next.v == v0 * 3 + p.list[0].n && m.v == v0, "the next state is the state after applying the command");
  }
  if (valid) COVER("valid");
  else COVER("invalid");
}
namespace {
struct Odd : state::Command<Model, Sut> {
  int how;
  explicit Odd(int h) : how(h) {}
  void checkPreconditions(const Model &) const override {
    if (how == 0) RC_FAIL("f");
    if (how == 1) RC_SUCCEED("s");
    if (how == 2) throw 5;
  }
};
} // namespace
// other outcomes of a precondition are not validity
ENTRY(c23_odd) {
  int how = (int)pick("how", 0, 3);
  state::Commands<state::Command<Model, Sut>> cmds{std::make_shared<Odd>(how)};
  Model m{1};
  std::vector<Event> log;
  Sut sut{&log, 0};
  static const int WANT[] = {2, 9, 3, 0};
  CHECK(outcome([&] { (void)state::isValidSequence(cmds, m); }) == WANT[how], "other outcomes of a precondition are passed on");
  CHECK(outcome([&] { (void)state::isValidCommand(*cmds[0], m); }) == WANT[how], "other outcomes of a precondition are passed on");
  CHECK(outcome([&] { state::runAll(cmds, m, sut); }) == WANT[how], "other outcomes of a precondition are passed on");
  // commands that define nothing do nothing
  state::Commands<state::Command<Model, Sut>> plain{std::make_shared<state::Command<Model, Sut>>(), std::make_shared<state::Command<Model, Sut>>()};
  CHECK(state::isValidSequence(plain, m) && outcome([&] { state::runAll(plain, m, sut); }) == 0, "by default commands are valid and do nothing");
  CHECK(plain[0]->nextState(m).v == 1, "by default commands are valid and do nothing");
  COVER("odd");
}
ENTRY(c23_show) {
  auto p = plan<Model>(0);
  std::ostringstream os;
  show(p.cmds, os);
  std::string want;
  for (size_t i = 0; i < p.list.size(); i++) want += "Add" + std::string(1, (char)('0' + i)) + "\n";
  CHECK(os.str() == want, "commands are shown in order, one per line");
  COVER("show");
}
// the check inside a property
ENTRY(c23_check) {
  uint32_t v0 = sym<uint32_t>("v0");
  uint32_t limit = sym<uint32_t>("limit");
  int fails = (int)pick("fails", 0, 1), form = (int)pick("form", 0, 1);
  std::vector<Event> log;
  uint32_t sutValue = 0;
  Model m{v0};
  auto body = [&] {
    log.clear();
    events.clear();
    Sut sut{&log, v0};
    auto genFunc = [&](const Model &x) {
      return gen::just(std::shared_ptr<const state::Command<Model, Sut>>(std::make_shared<Add<Model>>(0, 5, limit, x.v != v0 ? fails : 0)));
    };
    if (form) state::check([&] { return Model{v0}; }, sut, genFunc);
    else state::check(m, sut, genFunc);
    sutValue = sut.value;
  };
  // 5 + 3v differs from v unless 2v == -5
  ASSUME(v0 * 3 + 5 != v0);
  auto d = rc::detail::toProperty(body)(h::rnd(11), (int)sym_param("size", 2)).value();
  int runs = (int)log.size();
  CHECK(m.v == v0, "the caller's model is unchanged");
  if (d.result.type == CaseResult::Type::Discard) {
    CHECK(runs == 0, "no command runs when no valid sequence was found");
    COVER("discard");
    return;
  }
  uint32_t v = v0;
  for (int i = 0; i < runs; i++) {
    CHECK(log[i].model == v, "each command is given the state reached by the earlier ones");
    CHECK(v <= limit, "commands only run in states that allow them");
    v = v * 3 + 5;
  }
  if (d.result.type == CaseResult::Type::Success) {
    CHECK(sutValue == v && runs >= 1, "model and system are in lockstep");
    CHECK(!(fails && runs > 1), "a failing command fails the case");
    COVER("success");
  } else {
    CHECK(fails && runs == 2, "a failing command ends the run");
    COVER("failure");
  }
}
