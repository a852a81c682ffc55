// Stand-in for Catch: records what the adapter reports.
#pragma once
#include <sstream>
#include <string>
namespace host {
struct Aborted {};
struct Record { int failures = 0, successes = 0, sections = 0; std::string message, info, section; };
inline Record &rec() { static Record r; return r; }
struct Section { bool done = false; explicit Section(const std::string &n) { rec().sections++; rec().section = n; } bool operator()() { bool d = done; done = true; return !d; } };
struct Info { std::string old; explicit Info(const std::string &s) : old(rec().info) { rec().info += s; } ~Info() { rec().info = old; } };
inline void fail(const std::string &m) { rec().failures++; rec().message = rec().info + m; throw Aborted(); }
inline void failOn(const std::string &m) { rec().failures++; rec().message = rec().info + m; }
} // namespace host
#define HOST_CAT2(a, b) a##b
#define HOST_CAT(a, b) HOST_CAT2(a, b)
#define SECTION(d) for (::host::Section HOST_CAT(host_s, __LINE__){d}; HOST_CAT(host_s, __LINE__)();)
#define DYNAMIC_SECTION(d) SECTION(::host::text([&](std::ostream &o) { o << d; }))
namespace host {
template <typename F> std::string text(F f) { std::ostringstream o; f(o); return o.str(); }
} // namespace host
#define INFO(m) ::host::Info HOST_CAT(host_i, __LINE__){::host::text([&](std::ostream &o) { o << m; })}
#define UNSCOPED_INFO(m) (::host::rec().info += ::host::text([&](std::ostream &o) { o << m; }))
#define FAIL(...) ::host::fail(::host::text([&](std::ostream &o) { (void)o; o << std::string() __VA_OPT__(<< __VA_ARGS__); }))
#define FAIL_CHECK(...) ::host::failOn(::host::text([&](std::ostream &o) { (void)o; o << std::string() __VA_OPT__(<< __VA_ARGS__); }))
#define SUCCEED(...) ((void)::host::rec().successes++)
#define REQUIRE(...) do { if (__VA_ARGS__) ::host::rec().successes++; else ::host::fail("REQUIRE"); } while (0)
#define CATCH_CHECK(...) do { if (__VA_ARGS__) ::host::rec().successes++; else ::host::failOn("CHECK"); } while (0)
