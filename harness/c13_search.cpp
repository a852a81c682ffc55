// C13: the search phase.
#include <rapidcheck.h>
#include "sym.h"
#include "common.h"
#include "testing.h"
using namespace rc;
using namespace rc::detail;
using namespace h;

struct Run {
  std::vector<Random> randoms;
  std::vector<int> sizes, types;
  std::vector<bool> tagged;
};
// a property whose i-th invocation has an arbitrary verdict
static Property scripted(Run &run, int maxType, bool tags) {
  return Property([&run, maxType, tags](const Random &r, int size) {
    int i = (int)run.sizes.size();
    run.randoms.push_back(r);
    run.sizes.push_back(size);
    if (i > 60) { CHECK(false, "the search ends"); throw i; }
    int t = (int)pick("verdict", 0, maxType);
    if (maxType == 1) t *= 2; // success or discard
    run.types.push_back(t);
    run.tagged.push_back(tags && pick("tag", 0, 1));
    return shrinkable::just(desc(t, i, run.tagged.back()));
  });
}
static void check(const Run &run, const TestParams &p, const SearchResult &res, const Listener &l) {
  int ok = 0, dis = 0;
  size_t n = run.types.size();
  int64_t limit = (int64_t)p.maxDiscardRatio * p.maxSuccess;
  std::vector<Tags> tags;
  bool ended = p.maxSuccess == 0;
  auto want = SearchResult::Type::Success;
  for (size_t i = 0; i < n; i++) {
    CHECK(!ended, "no case runs after the end of the search");
    if (ended) return;
    if (run.types[i] == 0) {
      ok++;
      if (run.tagged[i]) tags.push_back(Tags{"tag " + nm((int)i)});
      if (ok == p.maxSuccess) ended = true;
    } else if (run.types[i] == 1) {
      ended = true;
      want = SearchResult::Type::Failure;
    } else {
      dis++;
      if (dis > limit) { ended = true; want = SearchResult::Type::GaveUp; }
    }
  }
  CHECK(ended, "the search does not stop early");
  CHECK(res.type == want, "the outcome of the search");
  CHECK(res.numSuccess == ok, "the number of successful cases");
  CHECK(res.numDiscarded == dis, "the number of discarded cases");
  CHECK(res.tags == tags, "the tags of the successful cases in order");
  CHECK((bool)res.failure == (want != SearchResult::Type::Success), "a failing case is reported unless the search succeeded");
  if (res.failure) {
    CHECK(res.failure->random == run.randoms[n - 1], "the reported random stream is the one of the last case");
    CHECK(res.failure->size == run.sizes[n - 1], "the reported size is the one of the last case");
    CHECK(eqStr(res.failure->shrinkable.value().result.description, "case " + nm((int)n - 1)), "the reported case is the last one");
  }
  CHECK(l.cases.size() == n, "the listener sees every case exactly once");
  for (size_t i = 0; i < n && i < l.cases.size(); i++) {
    CHECK(eqStr(l.cases[i], "case " + nm((int)i)), "the listener sees the cases in order");
    CHECK(l.types[i] == TYPES[run.types[i]], "the listener sees the verdicts");
  }
  CHECK(l.shrinks.empty() && l.finished.empty(), "the search announces nothing else");
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) CHECK(run.randoms[i] != run.randoms[j], "every case gets its own random stream");
  COVER("checked");
}
ENTRY(c13_verdicts) {
  TestParams p;
  p.seed = 42;
  p.maxSuccess = (int)pick("maxSuccess", 0, sym_param("n", 3));
  p.maxDiscardRatio = (int)pick("ratio", 0, 2);
  p.maxSize = 10;
  Run run;
  Listener l;
  auto res = searchProperty(scripted(run, 2, false), p, l);
  check(run, p, res, l);
}
ENTRY(c13_tags) {
  TestParams p;
  p.seed = 1;
  p.maxSuccess = (int)pick("maxSuccess", 1, sym_param("n", 2));
  p.maxDiscardRatio = 1;
  Run run;
  Listener l;
  auto res = searchProperty(scripted(run, 2, true), p, l);
  check(run, p, res, l);
}
// any limits: a run of discards that is allowed must not end the search
ENTRY(c13_limits) {
  TestParams p;
  p.maxSuccess = (int)pick("maxSuccess", 1, 3);
  p.maxDiscardRatio = sym<int>("ratio");
  ASSUME(p.maxDiscardRatio >= 0);
  p.maxSize = (int)range("size", 0, 0x7ffffff0);
  int n = (int)pick("discards", 0, 4), calls = 0;
  bool fail = pick("fail", 0, 1) != 0;
  Listener l;
  auto res = searchProperty(Property([&](const Random &, int) {
    int i = calls++;
    if (i > 20) { CHECK(false, "the search ends"); throw i; }
    return shrinkable::just(desc(i < n ? 2 : fail ? 1 : 0, i));
  }), p, l);
  bool gaveUp = (int64_t)n > (int64_t)p.maxDiscardRatio * p.maxSuccess;
  CHECK((res.type == SearchResult::Type::GaveUp) == gaveUp, "the search gives up exactly when the discards exceed the configured ratio");
  if (!gaveUp) CHECK(res.type == (fail ? SearchResult::Type::Failure : SearchResult::Type::Success), "otherwise the cases decide");
  if (gaveUp) COVER("gave up"); else COVER("went on");
}
static void sizesWithout(const TestParams &p, const std::vector<int> &s) {
  int n = p.maxSuccess, max = p.maxSize;
  CHECK((int)s.size() == n, "exactly the configured number of cases is run");
  if (n == 0) return;
  CHECK(s[0] == 0, "sizes start at zero");
  for (int x : s) CHECK(both(x >= 0, x <= max), "sizes stay between zero and the maximum");
  // in order: a smaller size only follows the maximum, as zero
  for (int i = 1; i < n; i++) CHECK(either(s[i] >= s[i - 1], both(s[i] == 0, s[i - 1] == max)), "sizes span the range in order");
}
ENTRY(c13_sizes) {
  TestParams p;
  p.maxSuccess = (int)pick("maxSuccess", sym_param("lo", 0), sym_param("hi", 12));
  p.maxSize = (int)pick("maxSize", 0, sym_param("max", 8));
  std::vector<int> s;
  Listener l;
  searchProperty(Property([&](const Random &, int size) { s.push_back(size); return shrinkable::just(desc(0, 0)); }), p, l);
  sizesWithout(p, s);
  if (p.maxSuccess > 1) {
    unsigned has = 0;
    for (int x : s) has |= (unsigned)(x == p.maxSize);
    CHECK(has, "the maximum size is used");
  }
  if (p.maxSuccess > p.maxSize)
    for (int k = 0; k <= p.maxSize; k++) {
      unsigned has = 0;
      for (int x : s) has |= (unsigned)(x == k);
      CHECK(has, "every size is used when there are enough cases");
    }
  COVER("sizes");
}
// every maximum size
ENTRY(c13_sizes_any) {
  TestParams p;
  p.maxSuccess = (int)sym_param("n", 3);
  // every value, by the position of its highest bit
  int k = (int)pick("k", 3, 30);
  if (k == 3) p.maxSize = (int)pick("maxSize", 0, 15);
  else p.maxSize = (int)((1u << k) | (sym<uint32_t>("maxSize") & ((1u << k) - 1)));
  std::vector<int> s;
  Listener l;
  searchProperty(Property([&](const Random &, int size) { s.push_back(size); return shrinkable::just(desc(0, 0)); }), p, l);
  sizesWithout(p, s);
  if (p.maxSuccess > 1) {
    unsigned has = 0;
    for (int x : s) has |= (unsigned)(x == p.maxSize);
    CHECK(has, "the maximum size is used");
  }
  COVER("sizes");
}
// discards let the size grow, a success ends that
ENTRY(c13_growth) {
  TestParams p;
  p.maxSuccess = (int)pick("maxSuccess", 2, 4);
  p.maxSize = (int)pick("maxSize", 0, 5);
  p.maxDiscardRatio = 100;
  int at = (int)pick("at", 0, p.maxSuccess - 1);
  int n = (int)sym_param("discards", 60);
  std::vector<int> s, base;
  Listener l, l2;
  int calls = 0;
  auto res = searchProperty(Property([&](const Random &, int size) {
    int i = calls++;
    s.push_back(size);
    if (calls > 500) { CHECK(false, "the search ends"); throw i; }
    return shrinkable::just(desc(i >= at && i < at + n ? 2 : 0, 0));
  }), p, l);
  searchProperty(Property([&](const Random &, int size) { base.push_back(size); return shrinkable::just(desc(0, 0)); }), p, l2);
  CHECK(res.type == SearchResult::Type::Success && res.numSuccess == p.maxSuccess, "discards do not count");
  CHECK((int)s.size() == p.maxSuccess + n, "every discarded case is replaced");
  if ((int)s.size() != p.maxSuccess + n || (int)base.size() != p.maxSuccess) return;
  for (int i = 0; i <= at; i++) CHECK(s[i] == base[i], "without discards the sizes are the planned ones");
  for (int i = at + 1; i <= at + n; i++) CHECK(s[i] >= s[i - 1], "sizes do not shrink while discards continue");
  CHECK(s[at + n] > s[at], "sizes grow while discards continue");
  for (int i = at + 1; i < p.maxSuccess; i++) CHECK(s[i + n] == base[i], "a success returns to the planned sizes");
  COVER("growth");
}
// the streams only depend on the seed and the number of cases run before
ENTRY(c13_streams) {
  TestParams p;
  p.seed = sym<uint64_t>("seed");
  p.maxSuccess = 3;
  p.maxDiscardRatio = 2;
  TestParams q = p;
  q.maxSuccess = 5;
  q.maxSize = 7;
  Run a, b;
  Listener l, l2;
  searchProperty(scripted(a, 1, false), p, l);
  int calls = 0;
  searchProperty(Property([&](const Random &r, int) { b.randoms.push_back(r); return shrinkable::just(desc(calls++ >= 4, 0)); }), q, l2);
  for (size_t i = 0; i < a.randoms.size() && i < b.randoms.size(); i++) CHECK(a.randoms[i] == b.randoms[i], "the stream of a case depends on seed and index only");
  for (size_t i = 0; i < a.randoms.size(); i++)
    for (size_t j = 0; j < i; j++) CHECK(a.randoms[i] != a.randoms[j], "every case gets its own random stream");
  COVER("streams");
}
// the result of the whole test
ENTRY(c13_result) {
  TestParams p;
  p.seed = 3;
  p.maxSuccess = (int)pick("maxSuccess", 0, 3);
  p.maxDiscardRatio = 1;
  TestMetadata m;
  m.id = "id";
  Run run;
  Listener l;
  auto res = testProperty(scripted(run, 2, false), m, p, l);
  int ok = 0, dis = 0;
  for (int t : run.types) { ok += t == 0; dis += t == 2; }
  bool fail = !run.types.empty() && run.types.back() == 1;
  bool gave = dis > p.maxSuccess;
  std::string last = "case " + nm((int)run.types.size() - 1);
  SuccessResult s;
  FailureResult f;
  GaveUpResult g;
  if (fail) {
    CHECK(res.match(f), "a failing case makes the test fail");
    CHECK(f.numSuccess == ok && eqStr(f.description, last), "the failure states the successes and the message");
    CHECK(f.reproduce.random == run.randoms.back() && f.reproduce.size == run.sizes.back() && f.reproduce.shrinkPath.empty(), "the failure can be reproduced");
    CHECK(f.counterExample == (Example{{"int", nm((int)run.types.size() - 1)}}), "the counterexample is the failing case");
    COVER("failure");
  } else if (gave) {
    CHECK(res.match(g), "too many discards make the test give up");
    CHECK(g.numSuccess == ok && eqStr(g.description, last), "giving up states the successes and the message");
    COVER("gave up");
  } else {
    CHECK(res.match(s), "otherwise the test succeeds");
    CHECK(s.numSuccess == p.maxSuccess && s.distribution.empty(), "success states the number of cases");
    COVER("success");
  }
  CHECK(l.finished.size() == 1 && l.finished[0] == res && eqStr(l.metas[0], "id"), "the end of the test is announced once, with the result");
}
// a failure or giving up after any number of discards names the size really used
ENTRY(c13_after_discards) {
  TestParams p;
  p.seed = 8;
  p.maxSuccess = (int)pick("maxSuccess", 1, 3);
  p.maxSize = (int)pick("maxSize", 0, 3) * 33;
  p.maxDiscardRatio = (int)sym_param("ratio", 8);
  int at = (int)pick("at", 0, p.maxSuccess - 1), n = (int)pick("discards", 0, sym_param("discards", 25));
  Run run;
  Property prop([&](const Random &r, int size) {
    int i = (int)run.sizes.size();
    run.sizes.push_back(size);
    run.randoms.push_back(r);
    if (i > 200) { CHECK(false, "the search ends"); throw i; }
    return shrinkable::just(desc(i < at ? 0 : i < at + n ? 2 : 1, i % 100));
  });
  Listener l;
  auto res = testProperty(prop, TestMetadata(), p, l);
  FailureResult f;
  GaveUpResult g;
  int last = (int)run.sizes.size() - 1;
  if (n > p.maxDiscardRatio * p.maxSuccess) {
    CHECK(res.match(g) && g.numSuccess == at && eqStr(g.description, "case " + nm(last % 100)), "the test gives up with the last case");
    COVER("gave up");
    return;
  }
  CHECK(res.match(f), "the failure is reported");
  CHECK(f.numSuccess == at && last == at + n, "discards do not count as successes");
  CHECK(f.reproduce.size == run.sizes[last] && f.reproduce.random == run.randoms[last], "the failure names the size and stream of the failing case");
  CHECK(eqStr(f.description, "case " + nm(last % 100)), "the failing case is reported");
  COVER("failure");
}
