// Stand-in for Google Test: records what the adapter reports.
#pragma once
#include <sstream>
#include <string>
#include <vector>
#include <memory>
namespace host {
struct Record { int failures = 0; int nonfatal = 0; std::string message; };
inline Record &rec() { static Record r; return r; }
} // namespace host
namespace testing {
class TestPartResult {
public:
  enum Type { kSuccess, kNonFatalFailure, kFatalFailure, kSkip };
  TestPartResult(Type t, const char *f, int l, const char *m) : t_(t), f_(f ? f : ""), hasFile_(f), l_(l), m_(m) {}
  Type type() const { return t_; }
  const char *file_name() const { return hasFile_ ? f_.c_str() : nullptr; }
  int line_number() const { return l_; }
  const char *summary() const { return m_.c_str(); }
  const char *message() const { return m_.c_str(); }
  bool passed() const { return t_ == kSuccess; }
  bool skipped() const { return t_ == kSkip; }
  bool failed() const { return fatally_failed() || nonfatally_failed(); }
  bool nonfatally_failed() const { return t_ == kNonFatalFailure; }
  bool fatally_failed() const { return t_ == kFatalFailure; }
private:
  Type t_; std::string f_; bool hasFile_; int l_; std::string m_;
};
class Message {
public:
  Message() {}
  Message(const Message &o) { ss_ << o.GetString(); }
  template <typename T> Message &operator<<(const T &x) { ss_ << x; return *this; }
  Message &operator<<(std::ostream &(*m)(std::ostream &)) { ss_ << m; return *this; }
  std::string GetString() const { return ss_.str(); }
private:
  std::ostringstream ss_;
};
class TestInfo {
public:
  std::string suite_, name_;
  const char *test_suite_name() const { return suite_.c_str(); }
  const char *test_case_name() const { return suite_.c_str(); }
  const char *name() const { return name_.c_str(); }
};
class TestSuite {};
typedef TestSuite TestCase;
class UnitTest;
class TestEventListener {
public:
  virtual ~TestEventListener() {}
  virtual void OnTestProgramStart(const UnitTest &) = 0;
  virtual void OnTestIterationStart(const UnitTest &, int) = 0;
  virtual void OnEnvironmentsSetUpStart(const UnitTest &) = 0;
  virtual void OnEnvironmentsSetUpEnd(const UnitTest &) = 0;
  virtual void OnTestSuiteStart(const TestSuite &) {}
  virtual void OnTestCaseStart(const TestCase &) {}
  virtual void OnTestStart(const TestInfo &) = 0;
  virtual void OnTestDisabled(const TestInfo &) {}
  virtual void OnTestPartResult(const TestPartResult &) = 0;
  virtual void OnTestEnd(const TestInfo &) = 0;
  virtual void OnTestSuiteEnd(const TestSuite &) {}
  virtual void OnTestCaseEnd(const TestCase &) {}
  virtual void OnEnvironmentsTearDownStart(const UnitTest &) = 0;
  virtual void OnEnvironmentsTearDownEnd(const UnitTest &) = 0;
  virtual void OnTestIterationEnd(const UnitTest &, int) = 0;
  virtual void OnTestProgramEnd(const UnitTest &) = 0;
};
class TestEventListeners {
public:
  std::vector<TestEventListener *> all;
  TestEventListener *printer = nullptr;
  void Append(TestEventListener *l) { all.push_back(l); }
  TestEventListener *Release(TestEventListener *l) {
    for (size_t i = 0; i < all.size(); i++) if (all[i] == l) {
      all.erase(all.begin() + i);
      if (l == printer) printer = nullptr;
      return l;
    }
    return nullptr;
  }
  TestEventListener *default_result_printer() const { return printer; }
};
class UnitTest {
public:
  static UnitTest *GetInstance() { static UnitTest u; return &u; }
  TestInfo info;
  TestEventListeners ls;
  const TestInfo *current_test_info() const { return &info; }
  TestEventListeners &listeners() { return ls; }
};
namespace internal {
struct AssertHelper {
  TestPartResult::Type t; const char *f; int l; const char *m;
  AssertHelper(TestPartResult::Type t_, const char *f_, int l_, const char *m_) : t(t_), f(f_), l(l_), m(m_) {}
  void operator=(const Message &msg) const {
    std::string s = std::string(m) + msg.GetString();
    if (t == TestPartResult::kFatalFailure) { host::rec().failures++; host::rec().message = s; }
    if (t == TestPartResult::kNonFatalFailure) { host::rec().nonfatal++; host::rec().message = s; }
    TestPartResult r(t, f, l, s.c_str());
    for (auto *x : std::vector<TestEventListener *>(UnitTest::GetInstance()->ls.all)) x->OnTestPartResult(r);
  }
};
} // namespace internal
class Test {
public:
  virtual ~Test() {}
  static bool HasFatalFailure() { return host::rec().failures > 0; }
  static bool HasNonfatalFailure() { return host::rec().nonfatal > 0; }
  static bool HasFailure() { return HasFatalFailure() || HasNonfatalFailure(); }
protected:
  virtual void SetUp() {}
  virtual void TearDown() {}
private:
  virtual void TestBody() = 0;
};
} // namespace testing
#define GTEST_MESSAGE_AT_(t, m) ::testing::internal::AssertHelper(::testing::TestPartResult::t, __FILE__, __LINE__, m) = ::testing::Message()
#define GTEST_FAIL() return GTEST_MESSAGE_AT_(kFatalFailure, "Failed\n")
#define FAIL() GTEST_FAIL()
#define ADD_FAILURE() GTEST_MESSAGE_AT_(kNonFatalFailure, "Failed\n")
#define GTEST_SUCCEED() GTEST_MESSAGE_AT_(kSuccess, "Succeeded\n")
#define SUCCEED() GTEST_SUCCEED()
#define EXPECT_TRUE(c) if (c) ; else ADD_FAILURE()
#define ASSERT_TRUE(c) if (c) ; else GTEST_FAIL()
#define EXPECT_FALSE(c) EXPECT_TRUE(!(c))
#define ASSERT_FALSE(c) ASSERT_TRUE(!(c))
#define GTEST_TEST_CLASS_NAME_(a, b) a##_##b##_Test
#define GTEST_TEST(a, b) \
  class a##_##b##_Test : public ::testing::Test { public: void TestBody() override; }; \
  void a##_##b##_Test::TestBody()
#define TEST(a, b) GTEST_TEST(a, b)
#define TYPED_TEST(F, N) \
  template <typename T> class F##_##N##_Test : public F<T> { public: typedef T TypeParam; void TestBody() override; }; \
  template <typename T> void F##_##N##_Test<T>::TestBody()
