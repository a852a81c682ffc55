// Stand-in for Boost.Test: records what the adapter reports.
#pragma once
#include <sstream>
#include <string>
namespace host {
struct Aborted {};
struct Record { int failures = 0, successes = 0; std::string message; };
inline Record &rec() { static Record r; return r; }
inline void check(bool ok, const std::string &m, bool aborts) { if (ok) { rec().successes++; return; } rec().failures++; rec().message = m; if (aborts) throw Aborted(); }
} // namespace host
namespace boost { namespace unit_test {
struct const_string { std::string s; operator std::string() const { return s; } const std::string &get() const { return s; } const std::string *operator->() const { return &s; } };
struct test_case { const_string p_name; std::string suite; std::string full_name() const { return suite + "/" + p_name.s; } };
namespace framework { inline test_case &current_test_case() { static test_case t; return t; } }
} }
namespace host { template <typename F> std::string text(F f) { std::ostringstream o; f(o); return o.str(); } }
#define HOST_TEXT(m) ::host::text([&](std::ostream &o) { o << m; })
#define BOOST_CHECK(c) ::host::check(static_cast<bool>(c), #c, false)
#define BOOST_TEST(c) BOOST_CHECK(c)
#define BOOST_REQUIRE(c) ::host::check(static_cast<bool>(c), #c, true)
#define BOOST_CHECK_MESSAGE(c, m) ::host::check(static_cast<bool>(c), HOST_TEXT(m), false)
#define BOOST_REQUIRE_MESSAGE(c, m) ::host::check(static_cast<bool>(c), HOST_TEXT(m), true)
#define BOOST_ERROR(m) BOOST_CHECK_MESSAGE(false, m)
#define BOOST_FAIL(m) BOOST_REQUIRE_MESSAGE(false, m)
#define BOOST_TEST_MESSAGE(m) ((void)HOST_TEXT(m))
#define BOOST_AUTO_TEST_CASE(n) struct n { void test_method(); }; void n::test_method()
