// C31: the adapters for Google Test and Google Mock.
#include <rapidcheck.h>
#include <gtest/gtest.h>
#include "rapidcheck/gtest.h"
#include "rapidcheck/gmock.h"
#include "c31.h"
namespace {
int made, setups, teardowns;
int active; // fixtures alive
class Fix : public ::testing::Test {
public:
  Fix() { made++; active++; }
  ~Fix() { active--; }
  int state = 0;
  bool up = false;
protected:
  void SetUp() override { setups++; up = true; }
  void TearDown() override { teardowns++; up = false; }
};
template <typename T> class TFix : public Fix {};
int bad;
bool leaked;
template <typename T> void run(const char *suite, const char *name) {
  auto &i = ::testing::UnitTest::GetInstance()->info;
  i.suite_ = suite;
  i.name_ = name;
  host::rec() = host::Record();
  made = setups = teardowns = active = bad = 0;
  T t; // the host's own object
  made = active = 0;
  t.TestBody();
  leaked = active != 0;
}
void fixtureBody(Fix &f, int x) {
  if (f.state++ != 0 || !f.up) bad++; // a fresh, set up fixture for every case
  c31::body(x);
}
void fixtures() {
  CHECK(bad == 0, "every case gets a fresh fixture that has been set up");
  CHECK(both(made == c31::calls, setups == c31::calls), "every case gets a fixture of its own");
  CHECK(!leaked, "no fixture outlives its case");
  CHECK(teardowns <= setups, "a fixture is torn down at most once");
  if (c31::verdict == c31::Pass && c31::discards == 0) COVER("all passed");
}
} // namespace
RC_GTEST_PROP(Suite, prop, (int x)) { c31::body(x); }
RC_GTEST_FIXTURE_PROP(Fix, fixtureProp, (int x)) { fixtureBody(*this, x); }
RC_GTEST_TYPED_FIXTURE_PROP(TFix, typedProp, (TypeParam x)) { fixtureBody(*this, (int)x); }
ENTRY(c31_gtest_prop) {
  c31::start();
  c31::CaptureOut out;
  run<Suite_prop_Test>("Suite", "prop");
  c31::expect(host::rec().failures, host::rec().message, out.os.str());
  CHECK(host::rec().nonfatal == 0, "a property is reported once");
  COVER("end");
}
ENTRY(c31_gtest_fixture) {
  c31::start();
  c31::CaptureOut out;
  if (pick("typed", 0, 1)) run<TFix_typedProp_Test<int>>("TFix/0", "typedProp");
  else run<Fix_RapidCheck_fixtureProp_Test>("Fix_RapidCheck", "fixtureProp");
  c31::expect(host::rec().failures, host::rec().message, out.os.str());
  fixtures();
  COVER("end");
}
// ---- the listener that makes failures of mocks and assertions count
namespace {
struct Log : ::testing::TestEventListener {
  std::vector<int> ev;
  std::vector<std::string> parts;
  static int &destroyed() { static int d; return d; }
  ~Log() { destroyed()++; }
  void OnTestProgramStart(const ::testing::UnitTest &) override { ev.push_back(0); }
  void OnTestIterationStart(const ::testing::UnitTest &, int i) override { ev.push_back(100 + i); }
  void OnEnvironmentsSetUpStart(const ::testing::UnitTest &) override { ev.push_back(2); }
  void OnEnvironmentsSetUpEnd(const ::testing::UnitTest &) override { ev.push_back(3); }
  void OnTestCaseStart(const ::testing::TestCase &) override { ev.push_back(4); }
  void OnTestStart(const ::testing::TestInfo &) override { ev.push_back(5); }
  void OnTestPartResult(const ::testing::TestPartResult &r) override { ev.push_back(6); parts.push_back(r.message()); }
  void OnTestEnd(const ::testing::TestInfo &) override { ev.push_back(7); }
  void OnTestCaseEnd(const ::testing::TestCase &) override { ev.push_back(8); }
  void OnEnvironmentsTearDownStart(const ::testing::UnitTest &) override { ev.push_back(9); }
  void OnEnvironmentsTearDownEnd(const ::testing::UnitTest &) override { ev.push_back(10); }
  void OnTestIterationEnd(const ::testing::UnitTest &, int i) override { ev.push_back(200 + i); }
  void OnTestProgramEnd(const ::testing::UnitTest &) override { ev.push_back(12); }
};
int install(Log *&log) {
  auto &ls = ::testing::UnitTest::GetInstance()->listeners();
  log = new Log;
  ls.Append(log);
  ls.printer = log;
  rc::gmock::RapidCheckListener::install();
  return (int)ls.all.size();
}
int parts; // bodies that reported to the host
} // namespace
RC_GTEST_PROP(Suite, hostFailures, (int x)) {
  // outcomes: fine, a success reported, an assertion of the host fails once or
  // twice, or fails in a case that is discarded
  using namespace c31;
  switch (kindOf(x, 5)) {
  case 0: note(Pass); break;
  case 1: note(Pass); SUCCEED(); break;
  case 2: note(Fail); EXPECT_TRUE(x != x); break;
  case 3: note(Fail); ADD_FAILURE(); ADD_FAILURE(); break;
  case 4: note(Undecided); ADD_FAILURE(); RC_PRE(false); break;
  }
}
ENTRY(c31_gmock_property) {
  c31::start();
  c31::CaptureOut out;
  Log *log;
  CHECK(install(log) == 1, "the listener takes the place of the one it forwards to");
  run<Suite_hostFailures_Test>("Suite", "hostFailures");
  c31::expect(host::rec().failures, host::rec().message, out.os.str());
  // only the report itself, which comes after the property, is passed on
  CHECK((int)log->parts.size() == (c31::verdict == c31::Fail ? 1 : 0), "failures inside of a property are not passed on, those outside are");
  COVER("end");
}
ENTRY(c31_gmock_forward) {
  Log *log;
  install(log);
  auto &u = *::testing::UnitTest::GetInstance();
  auto *l = u.ls.all[0];
  std::vector<int> want;
  std::vector<std::string> parts;
  ::testing::TestInfo ti;
  ::testing::TestCase tc;
  int n = (int)pick("n", 0, sym_param("n", 2));
  for (int i = 0; i < n; i++) {
    int e = (int)pick("event", 0, 12), k = (int)pick("iteration", 0, 2);
    want.push_back(e == 1 ? 100 + k : e == 11 ? 200 + k : e);
    switch (e) {
    case 0: l->OnTestProgramStart(u); break;
    case 1: l->OnTestIterationStart(u, k); break;
    case 2: l->OnEnvironmentsSetUpStart(u); break;
    case 3: l->OnEnvironmentsSetUpEnd(u); break;
    case 4: l->OnTestCaseStart(tc); break;
    case 5: l->OnTestStart(ti); break;
    case 6: { // outside of any property
      char m[2] = {sym<char>("m"), 0};
      ASSUME(m[0] != 0);
      parts.push_back(m);
      l->OnTestPartResult(::testing::TestPartResult((::testing::TestPartResult::Type)k, pick("file", 0, 1) ? "f" : nullptr, 3, m));
      break;
    }
    case 7: l->OnTestEnd(ti); break;
    case 8: l->OnTestCaseEnd(tc); break;
    case 9: l->OnEnvironmentsTearDownStart(u); break;
    case 10: l->OnEnvironmentsTearDownEnd(u); break;
    case 11: l->OnTestIterationEnd(u, k); break;
    case 12: l->OnTestProgramEnd(u); break;
    }
  }
  CHECK(log->ev == want, "the listener passes on every event, once and in order");
  CHECK(log->parts.size() == parts.size(), "results outside of a property are passed on");
  for (size_t i = 0; i < parts.size() && i < log->parts.size(); i++) CHECK(eqStr(log->parts[i], parts[i]), "results outside of a property are passed on unchanged");
  Log::destroyed() = 0;
  delete l;
  CHECK(Log::destroyed() == 1, "the listener owns the one it forwards to");
  COVER("end");
}
ENTRY(c31_gtest_reproduce) {
  c31::startRepro("Suite/prop");
  c31::CaptureOut out;
  run<Suite_prop_Test>("Suite", "prop");
  c31::expectRepro(host::rec().failures, host::rec().message);
  COVER("end");
}
