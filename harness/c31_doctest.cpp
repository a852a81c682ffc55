// C31: the adapter for doctest.
#include <rapidcheck.h>
#include <doctest/doctest.h>
#include "rapidcheck/doctest.h"
#include "c31.h"
ENTRY(c31_doctest) {
  c31::start();
  c31::CaptureOut out;
  host::rec() = host::Record();
  bool verbose = pick("verbose", 0, 1), named = pick("named", 0, 1);
  bool aborted = false;
  auto b = [](int x) { c31::body(x); };
  try {
    if (named) rc::doctest::check("what it is", b, verbose);
    else rc::doctest::check(b, verbose);
  } catch (const host::Aborted &) { aborted = true; }
  c31::expect(host::rec().failures, host::rec().message, out.os.str(), verbose);
  CHECK(implies(aborted, c31::verdict == c31::Fail), "only a failure ends the host's test");
  CHECK((host::rec().successes > 0) == (c31::verdict == c31::Pass), "a property that succeeds counts as an assertion that holds");
  if (named) CHECK(eqStr(host::rec().section, "what it is"), "the property is a subcase with its description");
  COVER("end");
}
ENTRY(c31_doctest_reproduce) {
  c31::startRepro(nullptr); // properties have no id
  c31::CaptureOut out;
  host::rec() = host::Record();
  try { rc::doctest::check("what it is", c31::body, pick("verbose", 0, 1) != 0); } catch (const host::Aborted &) {}
  c31::expectRepro(host::rec().failures, host::rec().message);
  COVER("end");
}
