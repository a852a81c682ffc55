// C31: the adapter for Catch.
#include <rapidcheck.h>
#include <catch2/catch.hpp>
#include "rapidcheck/catch.h"
#include "c31.h"
ENTRY(c31_catch) {
  c31::start();
  c31::CaptureOut out;
  host::rec() = host::Record();
  bool verbose = pick("verbose", 0, 1);
  bool host_assert = pick("hostAssert", 0, 1), aborted = false;
  try {
    rc::prop("what it is", [=](int x) {
      if (!host_assert) { c31::body(x); return; }
      // an assertion of the host that fails leaves the body with an exception
      bool ok = c31::kindOf(x, 2);
      c31::note(ok ? c31::Pass : c31::Fail);
      if (!ok) throw host::Aborted();
    }, verbose);
  } catch (const host::Aborted &) { aborted = true; }
  c31::expect(host::rec().failures, host::rec().message, out.os.str(), verbose);
  CHECK(aborted == (c31::verdict == c31::Fail), "a failure ends the host's test");
  CHECK((host::rec().successes > 0) == (c31::verdict == c31::Pass), "a property that succeeds counts as an assertion that holds");
  CHECK(host::rec().sections == 1 && eqStr(host::rec().section, "what it is"), "the property is a section with its description");
  COVER("end");
}
ENTRY(c31_catch_reproduce) {
  c31::startRepro(nullptr); // properties have no id
  c31::CaptureOut out;
  host::rec() = host::Record();
  try { rc::prop("what it is", c31::body, pick("verbose", 0, 1) != 0); } catch (const host::Aborted &) {}
  c31::expectRepro(host::rec().failures, host::rec().message);
  COVER("end");
}
