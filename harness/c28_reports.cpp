// C28: reports state exactly what happened.
#include <rapidcheck.h>
#include <algorithm>
#include <iomanip>
#include "sym.h"
#include "common.h"
#include "testing.h"
#include "detail/DefaultTestListener.h"
#include "detail/LogTestListener.h"
#include "detail/MulticastTestListener.h"
#include "detail/ReproduceListener.h"
#include "detail/StringSerialization.h"
using namespace rc;
using namespace rc::detail;
using namespace h;
extern "C" const char *rt_env_rc_params;
namespace {
std::string text(int len) {
  std::string s;
  for (int i = 0; i < len; i++) s += sym<char>("t");
  return s;
}
std::string decimal(int v) {
  std::string s;
  do s.insert(s.begin(), (char)('0' + v % 10)); while (v /= 10);
  return s;
}
std::string report(const TestResult &r) {
  std::ostringstream os;
  printResultMessage(r, os);
  return os.str();
}
int someCount() { // small numbers and the largest possible ones
  static const int N[] = {0, 1, 2, 9, 10, 99, 100, 1000, 2147483646};
  return N[pick("count", 0, 8)];
}
bool contains(const std::string &s, const std::string &x) {
  bool in = false;
  for (size_t i = 0; i + x.size() <= s.size(); i++) in = in || eqStr(s.substr(i, x.size()), x);
  return in;
}
// everything written to the standard error stream
struct CaptureErr {
  std::ostringstream os;
  std::streambuf *old;
  CaptureErr() { old = std::cerr.rdbuf(os.rdbuf()); }
  ~CaptureErr() { std::cerr.rdbuf(old); }
};
struct Line { int hundredths; std::string tags; };
// the lines of a distribution; false if the text has another form
bool parseLines(const std::string &s, size_t at, std::vector<Line> &out) {
  while (at < s.size()) {
    Line l{0, ""};
    size_t start = at;
    while (at < s.size() && s[at] == ' ') at++;
    int digits = 0;
    for (; at < s.size() && s[at] >= '0' && s[at] <= '9'; at++, digits++) l.hundredths = l.hundredths * 10 + (s[at] - '0');
    if (!digits || at + 7 > s.size() || s[at] != '.') return false;
    for (int i = 0; i < 2; i++) {
      char c = s[++at];
      if (c < '0' || c > '9') return false;
      l.hundredths = l.hundredths * 10 + (c - '0');
    }
    at++;
    if (at - start < 5 || s.substr(at, 4) != "% - ") return false;
    at += 4;
    while (at < s.size() && s[at] != '\n') l.tags += s[at++];
    if (at == s.size()) return false;
    at++;
    out.push_back(l);
  }
  return true;
}
std::string tagLine(const Tags &t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) s += (i ? ", " : "") + t[i];
  return s;
}
void checkDistribution(const std::string &s, size_t at, const Distribution &d, int n) {
  std::vector<Line> lines;
  CHECK(parseLines(s, at, lines), "each tag set is on a line of its own");
  CHECK(lines.size() == d.size(), "each tag set is listed once");
  for (auto &e : d) {
    int found = 0;
    for (auto &l : lines)
      if (eqStr(l.tags, tagLine(e.first))) {
        found++;
        long err = (long)l.hundredths * n - 10000L * e.second;
        CHECK(2 * err <= n + 1 && -2 * err <= n + 1, "the percentage is that of all successful tests");
      }
    CHECK(found == 1, "each tag set is listed once");
  }
  for (size_t i = 1; i < lines.size(); i++) CHECK(lines[i - 1].hundredths >= lines[i].hundredths, "the most frequent tags come first");
}
} // namespace
ENTRY(c28_success) {
  SuccessResult r;
  if (pick("plain", 0, 1)) {
    r.numSuccess = someCount();
    auto s = report(r);
    CHECK(s == "OK, passed " + decimal(r.numSuccess) + " tests", "a success states the number of tests");
    COVER("plain");
    return;
  }
  int k = (int)pick("tags", 1, sym_param("k", 3));
  int sum = 0;
  for (int i = 0; i < k; i++) {
    Tags t;
    char c = sym<char>("tag");
    ASSUME(both(c >= 'a', c <= 'z'));
    if (i != 1) t.push_back(std::string(1, (char)('0' + i)));
    t.push_back(std::string(1, c) + decimal(i));
    if (i == 2) t.push_back("last");
    int n = (int)pick("n", 1, sym_param("n", 4));
    r.distribution[t] = n;
    sum += n;
  }
  r.numSuccess = sum + (int)pick("untagged", 0, 2);
  auto s = report(r);
  std::string head = "OK, passed " + decimal(r.numSuccess) + " tests\n";
  CHECK(s.substr(0, head.size()) == head, "a success states the number of tests");
  checkDistribution(s, head.size(), r.distribution, r.numSuccess);
  COVER("distribution");
}
// the stream is left as it was
ENTRY(c28_format) {
  TestResult r = Error();
  switch (pick("kind", 0, 3)) {
  case 0: { SuccessResult s; s.numSuccess = 3; s.distribution[Tags{"a"}] = 1; r = s; break; }
  case 1: { FailureResult f; f.numSuccess = 3; f.reproduce.shrinkPath = {1, 2}; f.counterExample = {{"a", "b"}}; r = f; break; }
  case 2: r = GaveUpResult{3, "x"}; break;
  default: r = Error("x");
  }
  std::ostringstream os;
  os << std::setprecision(9);
  if (pick("fill", 0, 1)) os << std::setfill('*') << std::left;
  auto flags = os.flags();
  printResultMessage(r, os);
  CHECK(os.flags() == flags && os.precision() == 9 && os.width() == 0, "a report leaves the format of the stream unchanged");
  COVER("format");
}
ENTRY(c28_failure) {
  FailureResult f;
  f.numSuccess = someCount();
  f.description = text((int)pick("len", 0, 2));
  int path = (int)pick("path", 0, 12);
  for (int i = 0; i < path; i++) f.reproduce.shrinkPath.push_back((size_t)i * 7);
  int n = (int)pick("examples", 0, 2);
  std::string want = "Falsifiable after " + decimal(f.numSuccess + 1) + " tests";
  if (path) want += " and " + decimal(path) + " shrink" + (path > 1 ? "s" : "");
  want += "\n\n";
  for (int i = 0; i < n; i++) {
    std::string a = text(1), b = text((int)pick("value", 0, 1));
    f.counterExample.push_back({a, b});
    want += a + ":\n" + b + "\n\n";
  }
  CHECK(eqStr(report(f), want + f.description), "a failure states tests, shrinks, values in order and the description");
  COVER("failure");
}
ENTRY(c28_other) {
  std::string d = text((int)pick("len", 0, 3));
  if (pick("kind", 0, 1)) {
    GaveUpResult g;
    g.numSuccess = someCount();
    g.description = d;
    CHECK(eqStr(report(g), "Gave up after " + decimal(g.numSuccess) + " tests\n\n" + d), "giving up states the tests and the reason");
    COVER("gave up");
  } else {
    auto s = report(Error(d));
    CHECK(contains(s, d) && eqStr(s, "Failure: " + d + "\n\n"), "an error states its description");
    COVER("error");
  }
}
// results are equal exactly when all they report is
ENTRY(c28_equal) {
  auto mk = [](int i) {
    FailureResult f;
    f.numSuccess = sym<int>("n");
    f.description = text(1);
    f.reproduce.random = rnd((uint64_t)pick("random", 0, 1));
    f.reproduce.size = sym<int>("size");
    f.reproduce.shrinkPath = {sym<uint64_t>("path")};
    if (pick("longer", 0, 1)) f.reproduce.shrinkPath.push_back(1);
    f.counterExample = {{text(1), "v"}};
    return f;
  };
  auto a = mk(0), b = mk(1);
  unsigned same = (unsigned)(a.numSuccess == b.numSuccess) & (unsigned)eqStr(a.description, b.description) & (unsigned)(a.reproduce.random == b.reproduce.random) &
                  (unsigned)(a.reproduce.size == b.reproduce.size) & (unsigned)(a.reproduce.shrinkPath.size() == b.reproduce.shrinkPath.size()) &
                  (unsigned)(a.reproduce.shrinkPath[0] == b.reproduce.shrinkPath[0]) & (unsigned)eqStr(a.counterExample[0].first, b.counterExample[0].first);
  CHECK((a == b) == (bool)same && (a != b) == !same, "failures are equal exactly when all they report is");
  TestResult x(a), y(b), z(GaveUpResult{a.numSuccess, a.description});
  CHECK((x == y) == (bool)same && !(x == z), "results of different kinds differ");
  GaveUpResult g{sym<int>("g"), text(1)}, g2{sym<int>("g"), text(1)};
  CHECK((g == g2) == both(g.numSuccess == g2.numSuccess, eqStr(g.description, g2.description)), "results are equal exactly when all they report is");
  SuccessResult s, s2;
  s.numSuccess = sym<int>("s");
  s2.numSuccess = sym<int>("s");
  s.distribution[Tags{"a"}] = sym<int>("d");
  s2.distribution[Tags{"a"}] = sym<int>("d");
  CHECK((s == s2) == both(s.numSuccess == s2.numSuccess, s.distribution[Tags{"a"}] == s2.distribution[Tags{"a"}]), "results are equal exactly when all they report is");
  COVER("equal");
}
// combined listeners
namespace {
struct Event { int listener; int kind; std::string text; bool flag; };
std::vector<Event> events;
int destroyed = 0;
struct Recorder : TestListener {
  int id;
  explicit Recorder(int i) : id(i) {}
  ~Recorder() { destroyed++; }
  void onTestCaseFinished(const CaseDescription &d) override { events.push_back({id, 0, d.result.description, false}); }
  void onShrinkTried(const CaseDescription &d, bool a) override { events.push_back({id, 1, d.result.description, a}); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    GaveUpResult g;
    CHECK(r.match(g), "the result is passed on");
    events.push_back({id, 2, m.id + "/" + m.description + "/" + g.description, false});
  }
};
} // namespace
ENTRY(c28_multicast) {
  int n = (int)pick("listeners", 0, 3), m = (int)pick("events", 0, sym_param("m", 3));
  struct Sent { int kind; std::string text; bool flag; };
  std::vector<Sent> sent;
  {
    MulticastTestListener::Listeners ls;
    for (int i = 0; i < n; i++) ls.push_back(std::unique_ptr<TestListener>(new Recorder(i)));
    MulticastTestListener multi(std::move(ls));
    for (int i = 0; i < m; i++) {
      int kind = (int)pick("kind", 0, 2);
      std::string t = text(1);
      bool flag = sym<bool>("flag");
      CaseDescription d;
      d.result.description = t;
      if (kind == 0) multi.onTestCaseFinished(d);
      else if (kind == 1) multi.onShrinkTried(d, flag);
      else {
        TestMetadata md;
        md.id = t;
        md.description = "d";
        multi.onTestFinished(md, GaveUpResult{1, "g" + t});
        t = t + "/d/g" + t;
      }
      sent.push_back({kind, t, kind == 1 ? flag : false});
    }
  }
  CHECK(destroyed == n, "the listeners are owned");
  CHECK((int)events.size() == n * m, "every event reaches every listener once");
  if ((int)events.size() != n * m) return;
  for (int i = 0; i < m; i++)
    for (int l = 0; l < n; l++) {
      auto &e = events[i * n + l];
      CHECK(e.listener == l && e.kind == sent[i].kind && eqStr(e.text, sent[i].text) && e.flag == sent[i].flag, "events are forwarded in order");
    }
  COVER("multicast");
}
// the reproduction listener
ENTRY(c28_reproduce) {
  int n = (int)pick("tests", 0, sym_param("n", 3));
  std::unordered_map<std::string, Reproduce> want;
  std::ostringstream os;
  {
    ReproduceListener l(os);
    for (int i = 0; i < n; i++) {
      TestMetadata md;
      bool named = pick("named", 0, 1) != 0;
      if (named) { md.id = "id"; md.id += (char)('0' + i); if (i == 0) md.id += sym<char>("c"); }
      md.description = "description";
      Reproduce r;
      r.random = rnd(5);
      r.size = i == 0 ? (int)range("size", 0, 0x7fffffff) : i;
      r.shrinkPath = {(size_t)i, 130};
      int kind = (int)pick("kind", 0, 3);
      if (pick("case", 0, 1)) { l.onTestCaseFinished(desc(1, 0)); l.onShrinkTried(desc(1, 1), true); }
      TestResult res = Error();
      if (kind == 0) { FailureResult f; f.numSuccess = 1; f.reproduce = r; res = f; if (named) want[md.id] = r; }
      else if (kind == 1) res = SuccessResult{1, Distribution()};
      else if (kind == 2) res = GaveUpResult{1, "g"};
      else res = Error("e");
      l.onTestFinished(md, res);
      CHECK(os.str().empty(), "reproduction data is printed at the end");
    }
  }
  std::string s = os.str();
  if (want.empty()) {
    CHECK(s.empty(), "nothing is printed without failures that can be reproduced");
    COVER("nothing");
    return;
  }
  std::string key = "RC_PARAMS=\"reproduce=";
  size_t at = s.find(key);
  CHECK(at != std::string::npos, "the reproduction setting is printed");
  if (at == std::string::npos) return;
  at += key.size();
  size_t to = s.find('"', at);
  CHECK(to != std::string::npos, "the reproduction setting is printed");
  if (to == std::string::npos) return;
  auto got = stringToReproduceMap(s.substr(at, to - at));
  CHECK(got == want, "exactly the failed properties that can be reproduced are listed");
  COVER("listed");
}
// the progress log
ENTRY(c28_log) {
  bool progress = pick("progress", 0, 1) != 0, shrinking = pick("shrinking", 0, 1) != 0;
  std::ostringstream os;
  LogTestListener l(os, progress, shrinking);
  std::string want;
  int cases = (int)pick("cases", 0, 2), shrinks = (int)pick("shrinks", 0, 2);
  for (int i = 0; i < cases; i++) {
    int t = (int)pick("type", 0, 2);
    l.onTestCaseFinished(desc(t, i));
    if (progress) want += t == 0 ? "." : t == 2 ? "x" : shrinking ? "\nFound failure, shrinking:\n" : "\nFound failure, shrinking...\n";
  }
  for (int i = 0; i < shrinks; i++) {
    bool a = pick("accepted", 0, 1) != 0;
    l.onShrinkTried(desc(1, i), a);
    if (shrinking) want += a ? "!" : ".";
  }
  l.onTestFinished(TestMetadata(), TestResult(GaveUpResult()));
  if (progress || shrinking) want += "\n";
  CHECK(os.str() == want, "the log has one mark per event");
  COVER("log");
}
// the default listener logs and collects
ENTRY(c28_default) {
  Configuration c;
  c.verboseProgress = pick("progress", 0, 1) != 0;
  c.verboseShrinking = pick("shrinking", 0, 1) != 0;
  std::ostringstream os;
  {
    auto l = makeDefaultTestListener(c, os);
    l->onTestCaseFinished(desc(0, 0));
    CHECK(os.str() == (c.verboseProgress ? "." : ""), "progress is logged when asked for");
    l->onShrinkTried(desc(1, 1), true);
    CHECK(os.str() == std::string(c.verboseProgress ? "." : "") + (c.verboseShrinking ? "!" : ""), "shrinking is logged when asked for");
    TestMetadata md;
    md.id = "x";
    FailureResult f;
    f.numSuccess = 0;
    f.reproduce.size = 3;
    l->onTestFinished(md, f);
  }
  CHECK(contains(os.str(), "reproduce="), "failures can be reproduced");
  COVER("default");
}
// a complete check as the user sees it
ENTRY(c28_check) {
  rt_env_rc_params = "seed=5 max_success=4 max_discard_ratio=1";
  std::vector<int> types;
  Distribution dist;
  bool named = pick("named", 0, 1) != 0;
  std::string out;
  bool ok;
  {
    CaptureErr err;
    std::vector<Random> seen; // a body may be run again for the same case
    auto body = [&] {
      int i = *Gen<int>([&](const Random &r, int) {
        int k = 0;
        while (k < (int)seen.size() && !(seen[k] == r)) k++;
        if (k == (int)seen.size()) {
          seen.push_back(r);
          types.push_back((int)pick("outcome", 0, 3));
          if (types.back() == 3) dist[Tags{"\"tag\""}]++;
        }
        return shrinkable::just(k);
      }).as("x");
      int t = types[i];
      if (t == 3) RC_TAG("tag");
      if (t == 1) RC_FAIL("boom");
      if (t == 2) RC_DISCARD("gone");
    };
    ok = named ? rc::check("the name", body) : rc::check(body);
    out = err.os.str();
  }
  int good = 0, dis = 0, bad = 0;
  for (int t : types) {
    if (t == 1) { bad++; break; }
    if (t == 2) dis++;
    else good++;
  }
  CHECK(ok == (good == 4 && !bad), "check returns whether the property holds");
  CHECK(contains(out, "- the name\n") == named, "the description is printed");
  if (bad) {
    CHECK(contains(out, "Falsifiable after " + decimal(good + 1) + " tests\n\nx:\n"), "a failure states the number of tests");
    CHECK(contains(out, "\nx:\n" + decimal((int)types.size() - 1) + "\n") , "the falsifying values are printed");
    CHECK(contains(out, "boom"), "the failure description is printed");
    COVER("failure");
  } else if (good == 4) {
    std::string head = "OK, passed 4 tests\n";
    size_t at = out.find(head);
    CHECK(at != std::string::npos, "a success states the number of tests");
    if (at != std::string::npos && !dist.empty()) checkDistribution(out.substr(0, out.size() - 1), at + head.size(), dist, 4);
    COVER("success");
  } else {
    CHECK(contains(out, "Gave up after " + decimal(good) + " tests\n") && contains(out, "gone"), "giving up states the tests and the reason");
    COVER("gave up");
  }
}
