// Shared by the harnesses of C31: a property whose outcome for every generated
// value is chosen by the solver, and the verdict that follows from the outcomes.
#pragma once
#include <stdexcept>
#include <vector>
#include "sym.h"
#include "common.h"
#include "detail/StringSerialization.h"
extern "C" const char *rt_env_rc_params;
namespace c31 {
enum Kind { Ok, Tagged, Succeed, Assert, Throw, Discard };
enum Verdict { Undecided, Pass, Fail };
const int MAX_SUCCESS = 2, MAX_DISCARD = 2;
std::vector<std::pair<int, int>> table;
int successes, discards, calls;
Verdict verdict;
bool tagged; // a successful case has a tag
void start() {
  rt_env_rc_params = "seed=1 max_success=2 max_discard_ratio=1 noshrink=1";
  table.clear();
  successes = discards = calls = 0;
  verdict = Undecided;
  tagged = false;
}
// the same, with reproduction data for the property of the given id or for another one
enum Repro { Same, NoPath, Other };
int repro;
void startRepro(const char *id) {
  start();
  repro = (int)pick("reproduce", 0, id ? 2 : 0);
  if (!id) repro = Other;
  static std::string env;
  std::unordered_map<std::string, rc::detail::Reproduce> m;
  rc::detail::Reproduce r;
  r.random = h::rnd(1);
  r.size = 10;
  if (repro == NoPath) r.shrinkPath.push_back(1000);
  m[repro == Other ? "another" : id] = r;
  env = "seed=1 reproduce=" + rc::detail::reproduceMapToString(m);
  rt_env_rc_params = env.c_str();
}
int kindOf(int x, int kinds) {
  for (auto &p : table) if (p.first == x) return p.second;
  int k = (int)pick("outcome", 0, kinds - 1);
  table.push_back({x, k});
  return k;
}
void note(Verdict v) {
  calls++;
  if (verdict != Undecided) return; // the case is run again for the report
  if (v == Fail) verdict = Fail;
  else if (v == Pass) { if (++successes == MAX_SUCCESS) verdict = Pass; }
  else if (++discards > MAX_DISCARD) verdict = Fail;
}
// what goes to the standard output
struct CaptureOut {
  std::ostringstream os;
  std::streambuf *old;
  CaptureOut() { old = std::cout.rdbuf(os.rdbuf()); }
  ~CaptureOut() { std::cout.rdbuf(old); }
};
// the body of the property
inline void body(int x) {
  switch (kindOf(x, 6)) {
  case Ok: note(Pass); return;
  case Tagged: note(Pass); tagged = true; RC_TAG(x); return;
  case Succeed: note(Pass); RC_SUCCEED("fine"); return;
  case Assert: note(Fail); RC_ASSERT(x == x + 1 && false); return;
  case Throw: note(Fail); throw std::runtime_error("thrown");
  case Discard: note(Undecided); RC_PRE(false); return;
  }
}
// after the host's test has run
inline void expect(int failures, const std::string &message, const std::string &out, bool verbose = false) {
  CHECK(verdict != Undecided, "the property is run until it is decided");
  CHECK(failures == (verdict == Fail ? 1 : 0), "the host's test fails exactly when the property does not succeed");
  if (verdict == Fail) CHECK(message.find(discards > MAX_DISCARD ? "Gave up" : "Falsifiable") != std::string::npos, "the host's failure says what happened");
  // the distribution of the cases is shown, and nothing else is unless asked for
  bool shown = verdict == Pass && (tagged || verbose);
  CHECK((out.find("OK, passed 2 tests") != std::string::npos) == shown, "a property that succeeds is reported on the output when it has a distribution or the caller asks for it");
  CHECK(out.empty() == !shown, "nothing else goes to the output");
  sym_out("verdict", verdict);
  sym_out("calls", calls);
}
inline void expectRepro(int failures, const std::string &message) {
  if (repro == Other) {
    CHECK(failures == 0, "a property that is not to be reproduced does not fail the host's test");
    CHECK(calls == 0, "a property that is not to be reproduced is not run");
    COVER("skipped");
    return;
  }
  CHECK(failures == 1, "the host's test fails when the property fails again and when it cannot be reproduced");
  bool falsified = message.find("Falsifiable") != std::string::npos;
  CHECK(falsified == (repro == Same && verdict == Fail), "only a property that fails again is reported as falsified");
  CHECK(!message.empty(), "the host's failure says what happened");
}
} // namespace c31
