// C31: the adapter for Boost.Test.
#include <rapidcheck.h>
#include <boost/test/unit_test.hpp>
#include "rapidcheck/boost_test.h"
#include "c31.h"
namespace {
int made, active, bad;
struct Fix { int state = 0; Fix() { made++; active++; } ~Fix() { active--; } };
} // namespace
RC_BOOST_PROP(plain, (int x)) { c31::body(x); }
RC_BOOST_FIXTURE_PROP(withFixture, Fix, (int x)) {
  if (state++ != 0) bad++;
  c31::body(x);
}
ENTRY(c31_boost) {
  c31::start();
  c31::CaptureOut out;
  host::rec() = host::Record();
  made = active = bad = 0;
  auto &tc = boost::unit_test::framework::current_test_case();
  tc.suite = "suite";
  tc.p_name.s = "name";
  bool aborted = false, fixture = pick("fixture", 0, 1);
  try {
    if (fixture) withFixture().test_method(); else plain().test_method();
  } catch (const host::Aborted &) { aborted = true; }
  c31::expect(host::rec().failures, host::rec().message, out.os.str());
  CHECK(aborted == (c31::verdict == c31::Fail), "a failure ends the host's test");
  CHECK(c31::verdict == c31::Fail || host::rec().successes > 0, "a property that succeeds counts as an assertion that holds");
  if (fixture) {
    CHECK(bad == 0, "every case gets a fresh fixture");
    CHECK(both(made == c31::calls, active == 0), "every case gets a fixture of its own, which goes away with it");
  }
  COVER("end");
}
ENTRY(c31_boost_reproduce) {
  c31::startRepro("suite/name");
  c31::CaptureOut out;
  host::rec() = host::Record();
  made = active = bad = 0;
  auto &tc = boost::unit_test::framework::current_test_case();
  tc.suite = "suite";
  tc.p_name.s = "name";
  try { plain().test_method(); } catch (const host::Aborted &) {}
  c31::expectRepro(host::rec().failures, host::rec().message);
  COVER("end");
}
