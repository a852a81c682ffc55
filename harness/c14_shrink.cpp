// C14: the reported counterexample is a failing local minimum with a valid path.
#include <rapidcheck.h>
#include <algorithm>
#include "sym.h"
#include "common.h"
#include "testing.h"
#include "rapidcheck/shrinkable/Operations.h"
using namespace rc;
using namespace rc::detail;
using namespace h;

struct Node {
  int type, id;
  std::vector<Node> kids;
};
static int nextId;
// shapes by number of nodes; verdicts arbitrary, decided when first looked at
static Node shape(int k, int rootType) {
  Node n;
  n.type = rootType;
  n.id = nextId++;
  auto add = [&](int s) { n.kids.push_back(shape(s, -1)); };
  switch (k) {
  case 0: break;
  case 1: add(0); break;
  case 2: add(0); add(0); break;
  case 3: add(1); break;
  case 4: add(1); add(0); break;
  case 5: add(0); add(2); add(0); break;
  case 6: add(3); add(1); break;
  case 7: add(2); add(2); break;
  case 8: add(0); add(0); add(5); break;
  case 9: add(2); add(0); add(0); add(1); break;
  case 10: add(6); add(7); break;
  case 11: add(9); add(5); add(3); break;
  }
  return n;
}
static const int SHAPES = 10;
struct World {
  std::vector<int> types; // by node id, -1 unknown
  std::vector<int> evals; // ids in the order their value was computed
  int type(int id) {
    while ((int)types.size() <= id) types.push_back(-1);
    if (types[id] < 0) types[id] = (int)pick("verdict", 0, 2);
    return types[id];
  }
};
static Shrinkable<CaseDescription> real(World &w, const Node &n) {
  int id = n.id;
  return shrinkable::lambda(
      [&w, id] { w.evals.push_back(id); return desc(w.type(id), id); },
      [&w, n] { return seq::map(seq::fromContainer(n.kids), [&w](const Node &k) { return real(w, k); }); });
}
static const Node *follow(const Node &n, const std::vector<size_t> &path) {
  const Node *p = &n;
  for (size_t i : path) {
    if (i >= p->kids.size()) return nullptr;
    p = &p->kids[i];
  }
  return p;
}
static int idOf(const CaseDescription &d) {
  const std::string &s = d.result.description;
  int v = 0;
  for (size_t i = 5; i < s.size(); i++) v = v * 10 + (s[i] - '0');
  return v;
}
static void checkMinimum(World &w, const Node &root, int id, const std::vector<size_t> &path) {
  const Node *n = follow(root, path);
  CHECK(n != nullptr, "the reported path exists");
  if (!n) return;
  CHECK(n->id == id, "the reported path leads to the reported case");
  CHECK(w.type(id) == 1, "the reported case fails");
  for (auto &k : n->kids) CHECK(w.type(k.id) != 1, "no direct shrink of the reported case fails");
  // every step of the path is a failing case
  for (size_t l = 0; l < path.size(); l++) {
    const Node *m = follow(root, std::vector<size_t>(path.begin(), path.begin() + l + 1));
    CHECK(m && w.type(m->id) == 1, "every step of the path is a failing case");
  }
}
static void checkEvents(World &w, const Listener &l, const std::vector<size_t> &path) {
  size_t accepted = 0;
  for (size_t i = 0; i < l.shrinks.size(); i++) {
    CaseDescription d;
    d.result.description = l.shrinks[i].first;
    int id = idOf(d);
    CHECK(l.shrinks[i].second == (w.type(id) == 1), "the listener is told the right verdict");
    accepted += l.shrinks[i].second;
    for (size_t j = 0; j < i; j++) CHECK(l.shrinks[j].first != l.shrinks[i].first, "no shrink is announced twice");
  }
  CHECK(accepted == path.size(), "the number of accepted shrinks equals the length of the path");
}
// everything that was looked at during shrinking is announced
static void checkAnnounced(const Listener &l, const std::vector<int> &evals, size_t from, size_t to) {
  CHECK(l.shrinks.size() == to - from, "every shrink attempt is announced exactly once");
  for (size_t i = from; i < to && i - from < l.shrinks.size(); i++) CHECK(eqStr(l.shrinks[i - from].first, "case " + nm(evals[i])), "shrink attempts are announced in order");
}
ENTRY(c14_shrink) {
  nextId = 0;
  Node root = shape((int)pick("shape", 0, sym_param("shapes", 9)), 1);
  World w;
  w.types.push_back(1);
  Listener l;
  auto s = real(w, root);
  auto r = shrinkTestCase(s, l);
  // a case may be looked at more than once
  std::vector<int> seen;
  for (int id : w.evals) if (std::find(seen.begin(), seen.end(), id) == seen.end()) seen.push_back(id);
  checkAnnounced(l, seen, 0, seen.size());
  int id = idOf(r.first.value());
  checkMinimum(w, root, id, r.second);
  checkEvents(w, l, r.second);
  auto walked = shrinkable::walkPath(s, r.second);
  CHECK((bool)walked, "the path can be walked");
  if (walked) CHECK(idOf(walked->value()) == id, "walking the path leads to the reported case");
  CHECK(l.cases.empty() && l.finished.empty(), "shrinking announces nothing else");
  if (r.second.empty()) COVER("nothing fails");
  else COVER("shrunk");
}
// long descents and late shrinks
ENTRY(c14_long) {
  int n = (int)pick("n", 1, sym_param("n", 12));
  int target = (int)pick("target", 0, n);
  // 0: all smaller numbers upwards, 1: downwards, 2: the smallest, then the next smaller one
  int how = (int)pick("how", 0, 2);
  std::function<Shrinkable<CaseDescription>(int)> num = [&](int x) {
    return shrinkable::lambda([=] { return desc(x >= target ? 1 : (x % 2 ? 0 : 2), x); },
                              [=, &num] {
                                auto f = [&num](int y) { return num(y); };
                                if (how == 0) return seq::map(seq::range(0, x), f);
                                if (how == 1) return seq::map(seq::range(x - 1, -1), f);
                                return x == 0 ? Seq<Shrinkable<CaseDescription>>() : seq::map(seq::just(0, x - 1), f);
                              });
  };
  Listener l;
  auto s = num(n);
  auto r = shrinkTestCase(s, l);
  CHECK(idOf(r.first.value()) == target, "the only local minimum is found");
  auto walked = shrinkable::walkPath(s, r.second);
  CHECK(walked && idOf(walked->value()) == target, "walking the path leads to the reported case");
  std::vector<size_t> want;
  if (how == 0 || (how == 2 && target == 0)) { if (n > target) want.push_back((size_t)(how == 0 ? target : 0)); }
  else for (int x = n; x > target; x--) want.push_back(how == 2 ? 1 : 0);
  CHECK(r.second == want, "the path leads to the first failing shrink every time");
  COVER("long");
}
static void wholeTest(bool noShrink) {
  nextId = 0;
  Node root = shape((int)pick("shape", 0, sym_param("shapes", 8)), 1);
  World w;
  w.types.push_back(1);
  TestParams p;
  p.seed = sym<uint64_t>("seed");
  p.maxSuccess = 3;
  p.disableShrinking = noShrink;
  TestMetadata m;
  m.id = "the test";
  int calls = 0, at = (int)pick("at", 0, 2), size = -1;
  Random random;
  Property prop([&](const Random &r, int sz) {
    if (calls++ < at) return shrinkable::just(desc(0, 99));
    random = r;
    size = sz;
    return real(w, root);
  });
  Listener l;
  auto res = testProperty(prop, m, p, l);
  FailureResult f;
  CHECK(res.match(f), "the failure is reported");
  CHECK(f.numSuccess == at, "the failure states the number of successes before it");
  CHECK(f.reproduce.random == random && f.reproduce.size == size, "the reproduction data names the failing case");
  CaseDescription d;
  d.result.description = f.description;
  int id = idOf(d);
  CHECK(f.counterExample == (Example{{"int", nm(id)}}), "the counterexample belongs to the reported case");
  if (noShrink) {
    CHECK(id == 0 && f.reproduce.shrinkPath.empty(), "without shrinking the original case is reported unchanged");
    CHECK(l.shrinks.empty(), "without shrinking no shrink is announced");
  } else {
    checkMinimum(w, root, id, f.reproduce.shrinkPath);
    checkEvents(w, l, f.reproduce.shrinkPath);
  }
  CHECK((int)l.cases.size() == at + 1, "the listener sees the cases of the search only");
  CHECK(l.finished.size() == 1 && l.finished[0] == res && eqStr(l.metas[0], "the test"), "the result is announced once");
  COVER("whole");
}
ENTRY(c14_test) { wholeTest(false); }
ENTRY(c14_noshrink) { wholeTest(true); }
