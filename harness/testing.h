// Helpers for properties given as explicit case descriptions.
#pragma once
#include "rapidcheck/detail/Property.h"
#include "rapidcheck/detail/TestListener.h"
#include "detail/Testing.h"
namespace h {
using namespace rc;
using namespace rc::detail;
static const CaseResult::Type TYPES[] = {CaseResult::Type::Success, CaseResult::Type::Failure, CaseResult::Type::Discard};
inline std::string nm(int i) {
  std::string s;
  if (i >= 10) s += (char)('0' + i / 10);
  s += (char)('0' + i % 10);
  return s;
}
inline CaseDescription desc(int type, int id, bool tagged = false) {
  CaseDescription d;
  d.result = CaseResult(TYPES[type], "case " + nm(id));
  if (tagged) d.tags.push_back("tag " + nm(id));
  d.example = [=] { return Example{{"int", nm(id)}}; };
  return d;
}
struct Listener : TestListener {
  std::vector<std::string> cases;
  std::vector<CaseResult::Type> types;
  std::vector<std::pair<std::string, bool>> shrinks;
  std::vector<TestResult> finished;
  std::vector<std::string> metas;
  void onTestCaseFinished(const CaseDescription &d) override { cases.push_back(d.result.description); types.push_back(d.result.type); }
  void onShrinkTried(const CaseDescription &d, bool a) override { shrinks.push_back({d.result.description, a}); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override { finished.push_back(r); metas.push_back(m.id); }
};
} // namespace h
