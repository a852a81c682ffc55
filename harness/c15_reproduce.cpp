// C15: a reported failure reproduces to the same counterexample.
#include <rapidcheck.h>
#include "sym.h"
#include "common.h"
#include "testing.h"
#include "detail/StringSerialization.h"
#include "rapidcheck/detail/Configuration.h"
using namespace rc;
using namespace rc::detail;
using namespace h;

static void checkSame(const FailureResult &a, const TestResult &r) {
  FailureResult b;
  CHECK(r.match(b), "the failure is reproduced");
  CHECK(b.numSuccess == 0, "a reproduced failure counts no successes");
  CHECK(eqStr(a.description, b.description), "the description is reproduced");
  CHECK(a.reproduce == b.reproduce, "the reproduction data is unchanged");
  CHECK(a.counterExample.size() == b.counterExample.size(), "the counterexample is reproduced");
  for (size_t i = 0; i < a.counterExample.size() && i < b.counterExample.size(); i++)
    CHECK(eqStr(a.counterExample[i].first, b.counterExample[i].first) && eqStr(a.counterExample[i].second, b.counterExample[i].second), "every value of the counterexample is reproduced");
}
static void reproduceAllWays(const Property &prop, const FailureResult &f) {
  checkSame(f, reproduceProperty(prop, f.reproduce));
  TestMetadata m;
  m.id = "some test";
  std::unordered_map<std::string, Reproduce> map;
  map[m.id] = f.reproduce;
  Reproduce other;
  other.size = 7;
  if (pick("others", 0, 1)) map["other test"] = other;
  Listener l;
  TestParams p;
  auto via = pick("via", 0, 2);
  if (via == 1) map = stringToReproduceMap(reproduceMapToString(map));
  if (via == 2) {
    Configuration c;
    c.reproduce = map;
    c = configFromString(pick("minimal", 0, 1) ? configToMinimalString(c) : configToString(c));
    map = c.reproduce;
    p = c.testParams;
  }
  auto r = checkProperty(prop, m, p, l, map);
  checkSame(f, r);
  CHECK(l.cases.empty() && l.shrinks.empty(), "reproducing does not search");
}
// real properties over real generators
template <typename F>
static void realProperty(F body, int maxSize) {
  Property prop = toProperty(body);
  TestParams p;
  p.seed = 99;
  p.maxSuccess = (int)sym_param("cases", 2);
  p.maxSize = maxSize;
  p.disableShrinking = pick("noshrink", 0, 1) != 0;
  TestMetadata m;
  m.id = "some test";
  Listener l;
  auto res = testProperty(prop, m, p, l);
  FailureResult f;
  if (!res.match(f)) { COVER("no failure"); return; }
  size_t accepted = 0;
  for (auto &s : l.shrinks) accepted += s.second;
  CHECK(accepted == f.reproduce.shrinkPath.size(), "the shrink count is the length of the path");
  reproduceAllWays(prop, f);
  COVER("reproduced");
}
ENTRY(c15_real_bool) {
  realProperty([](bool a, bool b) {
    if (a && b) throw std::string("both");
    RC_PRE(!b);
  }, 3);
}
ENTRY(c15_real_int) {
  realProperty([] {
    int x = (int)sym_conc((uint64_t)*gen::inRange(0, 6));
    int y = (int)sym_conc((uint64_t)*gen::inRange(0, 1 + x));
    RC_ASSERT(x + y < 4);
  }, 100);
}
ENTRY(c15_real_vector) {
  realProperty([] {
    auto v = *gen::container<std::vector<bool>>((std::size_t)2, gen::arbitrary<bool>());
    bool last = *gen::arbitrary<bool>();
    if (v[0] && (v[1] || last)) RC_FAIL("found");
  }, 100);
}
// an explicit tree that depends on the stream and the size
static Shrinkable<CaseDescription> tree(uint64_t key, int depth, const int *verdicts, int &id) {
  int me = id++;
  std::vector<Shrinkable<CaseDescription>> kids;
  if (depth > 0) for (int i = 0; i < 2; i++) kids.push_back(tree(key + i, depth - 1, verdicts, id));
  auto d = desc(verdicts[me], me);
  return shrinkable::just(d, seq::fromContainer(kids));
}
ENTRY(c15_path) {
  int verdicts[7];
  for (int &v : verdicts) v = 1;
  Random r0 = Random(sym<uint64_t>("seed"));
  int size0 = sym<int>("size");
  int bad = (int)pick("changed", 0, 7); // this case no longer fails
  int how = (int)pick("how", 0, 1) * 2;
  if (bad < 7) verdicts[bad] = how;
  int calls = 0;
  Property prop([&](const Random &r, int s) {
    calls++;
    CHECK(r == r0 && s == size0, "the stream and the size are the recorded ones");
    int id = 0;
    return tree(0, 2, verdicts, id);
  });
  Reproduce rep;
  rep.random = r0;
  rep.size = size0;
  int n = (int)pick("len", 0, 3);
  int node = 0, d = 2;
  bool exists = true;
  for (int i = 0; i < n; i++) {
    uint64_t k = sym<uint64_t>("step");
    rep.shrinkPath.push_back((size_t)k);
    if (!exists) continue;
    if (d == 0 || k >= 2) { exists = false; continue; }
    int kk = (int)sym_conc(k);
    int sub = d == 2 ? 3 : 1;
    node = node + 1 + kk * sub;
    d--;
  }
  TestMetadata m;
  m.id = "some test";
  std::unordered_map<std::string, Reproduce> map;
  map[m.id] = rep;
  TestParams p;
  p.disableShrinking = pick("noshrink", 0, 1) != 0;
  Listener l;
  auto res = checkProperty(prop, m, p, l, map);
  if (p.disableShrinking) { exists = true; node = 0; rep.shrinkPath.clear(); }
  CHECK(calls == 1, "exactly the recorded case is generated");
  FailureResult f;
  Error e;
  if (!exists) {
    CHECK(res.match(e), "a path that does not exist is an error");
    COVER("no path");
  } else if (verdicts[node] != 1) {
    CHECK(res.match(e), "a case that no longer fails is an error");
    COVER("no failure");
  } else {
    CHECK(res.match(f), "the failure is reproduced");
    CHECK(eqStr(f.description, "case " + nm(node)), "the case at the end of the path is reported");
    CHECK(f.counterExample == (Example{{"int", nm(node)}}), "the counterexample is the case at the end of the path");
    CHECK(f.reproduce == rep && f.numSuccess == 0, "the reproduction data is reported unchanged");
    COVER("reproduced");
  }
}
ENTRY(c15_skip) {
  std::unordered_map<std::string, Reproduce> map;
  int n = (int)pick("n", 1, 2);
  static const char *const names[] = {"alpha", "", "bet"};
  Reproduce rep;
  rep.size = 3;
  map[names[pick("a", 0, 2)]] = rep;
  if (n == 2) map[names[pick("b", 0, 2)]] = rep;
  TestMetadata m;
  int len = (int)pick("len", 0, 3);
  for (int i = 0; i < len; i++) m.id += (char)sym<char>("c");
  int calls = 0;
  Property prop([&](const Random &, int) { calls++; return shrinkable::just(desc(1, 1)); });
  Listener l;
  auto res = checkProperty(prop, m, TestParams(), l, map);
  bool has = false;
  for (auto &e : map) has = has || (!e.first.empty() && eqStr(e.first, m.id));
  SuccessResult s;
  if (has) { CHECK(calls == 1 && !res.match(s), "an entry is reproduced"); COVER("reproduced"); }
  else {
    CHECK(calls == 0, "properties without an entry are not run");
    CHECK(res.match(s) && s.numSuccess == 0, "properties without an entry are skipped");
    COVER("skipped");
  }
}
// without any entry the property is tested
ENTRY(c15_empty) {
  TestMetadata m;
  if (pick("id", 0, 1)) m.id = "x";
  int calls = 0;
  Property prop([&](const Random &, int) { calls++; return shrinkable::just(desc(0, 1)); });
  Listener l;
  TestParams p;
  p.maxSuccess = 3;
  auto res = checkProperty(prop, m, p, l, {});
  SuccessResult s;
  CHECK(calls == 3 && res.match(s) && s.numSuccess == 3, "without reproduction data the property is tested");
  COVER("tested");
}
// a failure that only shows at larger sizes, found after discarded cases
ENTRY(c15_discards) {
  int n = (int)pick("discards", 0, sym_param("discards", 30));
  int call = 0, failSize = -1;
  Random failRandom;
  Property prop([&](const Random &r, int size) {
    if (failSize >= 0) return shrinkable::just(desc(r == failRandom && size == failSize ? 1 : 0, 5));
    if (call++ < n) return shrinkable::just(desc(2, 1));
    failSize = size;
    failRandom = r;
    return shrinkable::just(desc(1, 5));
  });
  TestParams p;
  p.seed = 3;
  p.maxSuccess = 2 + (int)pick("cases", 0, 1) * 98;
  p.maxSize = (int)pick("max", 0, 2) * 50;
  p.maxDiscardRatio = 50;
  TestMetadata m;
  m.id = "some test";
  Listener l;
  auto res = testProperty(prop, m, p, l);
  FailureResult f;
  CHECK(res.match(f), "the failing case is found");
  CHECK(f.reproduce.size == failSize && f.reproduce.random == failRandom, "the reproduction data names the failing case");
  reproduceAllWays(prop, f);
  COVER("reproduced");
}
