// Stand-in for doctest: records what the adapter reports.
#pragma once
#include <sstream>
#include <string>
namespace host {
struct Aborted {};
struct Record { int failures = 0, successes = 0, sections = 0; std::string message, info, section; };
inline Record &rec() { static Record r; return r; }
template <typename F> std::string text(F f) { std::ostringstream o; f(&o); return o.str(); }
} // namespace host
namespace doctest {
namespace assertType { enum Enum { is_warn = 1, is_check = 2, is_require = 4, is_normal = 8, DT_WARN = is_normal | is_warn, DT_CHECK = is_normal | is_check, DT_REQUIRE = is_normal | is_require }; }
struct String { std::string s; String(const char *c = "") : s(c) {} };
struct AssertData { const char *m_file; int m_line; const char *m_expr; assertType::Enum m_at; bool m_failed = true; bool m_threw = false; String m_decomp; };
namespace detail {
struct Subcase { Subcase(const String &n, const char *, int) { host::rec().sections++; host::rec().section = n.s; } operator bool() const { return true; } };
struct ResultBuilder : AssertData {
  ResultBuilder(assertType::Enum at, const char *file, int line, const char *expr, const char * = "", const String & = "") { m_at = at; m_file = file; m_line = line; m_expr = expr; }
  void setResult(bool ok) { m_failed = !ok; }
  bool log() { if (m_failed) { host::rec().failures++; host::rec().message = host::rec().info; } else host::rec().successes++; return false; }
  void react() const { if (m_failed && (m_at & assertType::is_require)) throw host::Aborted(); }
};
struct ContextScope { std::string old; explicit ContextScope(const std::string &s) : old(host::rec().info) { host::rec().info += s; } ~ContextScope() { host::rec().info = old; } };
struct MessageBuilder {
  std::ostringstream *o; std::ostringstream own; bool fails, aborts;
  MessageBuilder(std::ostringstream *s) : o(s), fails(false), aborts(false) {}
  MessageBuilder(const char *, int, assertType::Enum at) : o(&own), fails(true), aborts(at & assertType::is_require) {}
  template <typename T> MessageBuilder &operator*(const T &x) { *o << x; return *this; }
  template <typename T> MessageBuilder &operator,(const T &x) { *o << x; return *this; }
  template <typename T> MessageBuilder &operator<<(const T &x) { *o << x; return *this; }
  bool log() { host::rec().failures++; host::rec().message = host::rec().info + own.str(); return false; }
  void react() { if (aborts) throw host::Aborted(); }
};
} // namespace detail
} // namespace doctest
#define HOST_CAT2(a, b) a##b
#define HOST_CAT(a, b) HOST_CAT2(a, b)
// like those of doctest, these name the namespace relative to the place of use
#define DOCTEST_SUBCASE(name) if (const doctest::detail::Subcase &HOST_CAT(host_s, __LINE__) = doctest::detail::Subcase(name, __FILE__, __LINE__))
#define DOCTEST_INFO(...) doctest::detail::ContextScope HOST_CAT(host_i, __LINE__)(::host::text([&](std::ostringstream *host_o) { doctest::detail::MessageBuilder host_b(host_o); host_b * __VA_ARGS__; }))
#define DOCTEST_ASSERT_LOG_AND_REACT(b) do { b.log(); b.react(); } while (0)
#define DOCTEST_ASSERT_LOG_REACT_RETURN(b) DOCTEST_ASSERT_LOG_AND_REACT(b)
#define DOCTEST_ADD_AT_(at, file, line, x) do { doctest::detail::MessageBuilder mb(file, line, doctest::assertType::at); mb * x; mb.log(); mb.react(); } while (0)
#define DOCTEST_ADD_FAIL_CHECK_AT(file, line, ...) DOCTEST_ADD_AT_(is_check, file, line, __VA_ARGS__)
#define DOCTEST_ADD_FAIL_AT(file, line, ...) DOCTEST_ADD_AT_(is_require, file, line, __VA_ARGS__)
#define DOCTEST_FAIL_CHECK(...) DOCTEST_ADD_FAIL_CHECK_AT(__FILE__, __LINE__, __VA_ARGS__)
#define DOCTEST_FAIL(...) DOCTEST_ADD_FAIL_AT(__FILE__, __LINE__, __VA_ARGS__)
#define DOCTEST_REQUIRE_AT_(at, ...) do { doctest::detail::ResultBuilder host_r(doctest::assertType::at, __FILE__, __LINE__, #__VA_ARGS__); host_r.setResult(static_cast<bool>(__VA_ARGS__)); host_r.log(); host_r.react(); } while (0)
#define DOCTEST_REQUIRE(...) DOCTEST_REQUIRE_AT_(DT_REQUIRE, __VA_ARGS__)
#define DOCTEST_CHECK(...) DOCTEST_REQUIRE_AT_(DT_CHECK, __VA_ARGS__)
#define REQUIRE DOCTEST_REQUIRE
#define SUBCASE DOCTEST_SUBCASE
#define INFO DOCTEST_INFO
#define FAIL DOCTEST_FAIL
#define FAIL_CHECK DOCTEST_FAIL_CHECK
