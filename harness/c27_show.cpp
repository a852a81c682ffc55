// C27: values are shown faithfully.
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <algorithm>
#include <iomanip>
#include <limits>
#include <memory>
#include <forward_list>
#include <unordered_map>
#include <unordered_set>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
// shows as one character
struct Mark { char c; };
void showValue(const Mark &m, std::ostream &os) { os << m.c; }
bool operator<(const Mark &a, const Mark &b) { return a.c < b.c; }
bool operator==(const Mark &a, const Mark &b) { return a.c == b.c; }
struct HashMark { size_t operator()(const Mark &) const { return 1; } };
char markChar() {
  char c = sym<char>("c");
  ASSUME(both(c >= 'a', c <= 'z'));
  return c;
}
std::vector<Mark> marks(int n) {
  std::vector<Mark> v;
  for (int i = 0; i < n; i++) v.push_back(Mark{markChar()});
  return v;
}
template <typename It> std::string joined(const char *open, It b, It e, const char *close) {
  std::string s = open;
  bool first = true;
  for (; b != e; ++b) {
    if (!first) s += ", ";
    first = false;
    s += b->c;
  }
  return s + close;
}
template <typename It> std::string joinedPairs(It b, It e) {
  std::string s = "{";
  bool first = true;
  for (; b != e; ++b) {
    if (!first) s += ", ";
    first = false;
    s += std::string("(") + b->first.c + ", " + b->second.c + ")";
  }
  return s + "}";
}
void same(const std::string &got, const std::string &want, const char *what) { CHECK(eqStr(got, want), what); }
// reads the shown form of a string back
bool unquote(const std::string &t, std::string &out) {
  size_t n = t.size();
  if (n < 2 || t[0] != '"' || t[n - 1] != '"') return false;
  for (size_t i = 1; i + 1 < n; i++) {
    if (t[i] == '"') return false;
    if (t[i] != '\\') { out += t[i]; continue; }
    if (++i + 1 >= n) return false;
    switch (t[i]) {
    case '\\': out += '\\'; break;
    case '"': out += '"'; break;
    case '0': out += '\0'; break;
    case 'a': out += '\a'; break;
    case 'b': out += '\b'; break;
    case 'f': out += '\f'; break;
    case 'n': out += '\n'; break;
    case 'r': out += '\r'; break;
    case 't': out += '\t'; break;
    case 'v': out += '\v'; break;
    case 'x': {
      if (i + 3 >= n) return false;
      int v = 0;
      for (int k = 0; k < 2; k++) {
        char c = t[++i];
        if (c >= '0' && c <= '9') v = v * 16 + (c - '0');
        else if (c >= 'A' && c <= 'F') v = v * 16 + (c - 'A' + 10);
        else return false;
      }
      out += (char)v;
      break;
    }
    default: return false;
    }
  }
  return true;
}
// a stream with an unusual format
void setUp(std::ostream &os, int how) {
  if (how & 1) os << std::hex << std::showbase << std::uppercase;
  if (how & 2) os << std::setprecision(9) << std::fixed;
  if (how & 4) os << std::setfill('*') << std::left;
}
template <typename F> void keepsFormat(const F &f) {
  std::ostringstream os;
  setUp(os, (int)pick("format", 0, 7));
  auto flags = os.flags();
  auto prec = os.precision();
  auto fill = os.fill();
  auto width = os.width();
  f(os);
  CHECK(os.flags() == flags && os.precision() == prec && os.fill() == fill && os.width() == width, "showing leaves the format of the stream unchanged");
  CHECK(os.good(), "showing leaves the stream usable");
}
} // namespace
// a shown string can be read back and has no raw control characters
ENTRY(c27_string) {
  int len = (int)pick("len", 0, sym_param("n", 3));
  std::string s;
  for (int i = 0; i < len; i++) s += sym<char>("c");
  std::string before = s;
  std::string t = toString(s);
  CHECK(eqStr(s, before), "showing leaves the value unchanged");
  unsigned ok = 1;
  for (char c : t) ok &= (unsigned)both(c >= 0x20, c < 0x7F);
  CHECK(ok, "a shown string consists of printable characters");
  std::string back;
  CHECK(unquote(t, back), "a string is shown quoted, with escapes");
  same(back, s, "a shown string reads back as the string");
  same(toString(s), t, "equal values are shown equally");
  // printable characters other than quotes and backslashes stand for themselves
  if (len == 1 && s[0] >= 0x20 && s[0] < 0x7F && s[0] != '"' && s[0] != '\\') same(t, "\"" + s + "\"", "an ordinary character is shown as it is");
  if (len == 1 && (s[0] == '"' || s[0] == '\\')) same(t, std::string("\"\\") + s + "\"", "quotes and backslashes are escaped");
  bool zero = false;
  for (char c : s) zero = zero || c == 0;
  if (!zero) {
    same(toString(s.c_str()), t, "a C string is shown like a string");
    COVER("cstring");
  }
}
// the format of the stream does not matter for strings and is not changed
ENTRY(c27_format) {
  std::string s(1, sym<char>("c"));
  s += sym<char>("d");
  std::string want = toString(s);
  keepsFormat([&](std::ostream &os) {
    show(s, os);
    same(static_cast<std::ostringstream &>(os).str(), want, "a string is shown the same way whatever the format of the stream");
  });
  COVER("format");
}
ENTRY(c27_format_values) {
  int x = (int)pick("x", -1, 12);
  auto p = std::make_shared<int>(x);
  std::unique_ptr<int> none;
  std::array<int, 2> a{{1, 2}};
  keepsFormat([&](std::ostream &os) {
    show(x, os);
    show(x > 3, os);
    show('c', os);
    show(p, os);
    show(none, os);
    show(std::make_pair(std::string("\x01"), x), os);
    show(std::make_tuple(x, 1.5, std::string("\\")), os);
    show(std::vector<int>(2, x), os);
    show(std::map<int, std::string>{{x, "a"}}, os);
    show(a, os);
    show(Maybe<int>(x), os);
    show(Maybe<int>(), os);
  });
  COVER("format");
}
// numbers, characters and booleans
namespace {
std::string decimal(int v) {
  std::string s;
  unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v;
  do s.insert(s.begin(), (char)('0' + u % 10)); while (u /= 10);
  return v < 0 ? "-" + s : s;
}
template <typename T> void number(int lo, int hi) {
  int v = (int)pick("v", lo, hi);
  same(toString((T)v), decimal((int)(T)v), "numbers are shown in decimal");
}
} // namespace
ENTRY(c27_numbers) {
  int step = (int)sym_param("step", 1);
  (void)step;
  switch (pick("type", 0, 9)) {
  case 0: number<char>(-128, 127); break;
  case 1: number<unsigned char>(0, 255); break;
  case 2: number<signed char>(-128, 127); break;
  case 3: number<short>(-105, 105); break;
  case 4: number<unsigned short>(0, 105); break;
  case 5: number<int>(-105, 105); break;
  case 6: number<unsigned>(0, 105); break;
  case 7: number<long>(-105, 105); break;
  case 8: number<unsigned long long>(0, 105); break;
  default: {
    bool b = sym<bool>("b");
    same(toString(b), b ? "true" : "false", "booleans are shown as words");
    same(toString(std::numeric_limits<int64_t>::min()), "-9223372036854775808", "numbers are shown in decimal");
    same(toString(std::numeric_limits<uint64_t>::max()), "18446744073709551615", "numbers are shown in decimal");
    same(toString(std::numeric_limits<int>::min()), "-2147483648", "numbers are shown in decimal");
    COVER("bool");
  }
  }
}
// containers in iteration order
ENTRY(c27_containers) {
  auto v = marks((int)pick("n", 0, sym_param("n", 3)));
  switch (pick("type", 0, 13)) {
  case 0: same(toString(v), joined("[", v.begin(), v.end(), "]"), "a vector is shown in order"); break;
  case 1: { std::deque<Mark> c(v.begin(), v.end()); same(toString(c), joined("[", c.begin(), c.end(), "]"), "a deque is shown in order"); break; }
  case 2: { std::list<Mark> c(v.begin(), v.end()); same(toString(c), joined("[", c.begin(), c.end(), "]"), "a list is shown in order"); break; }
  case 3: { std::forward_list<Mark> c(v.begin(), v.end()); same(toString(c), joined("[", c.begin(), c.end(), "]"), "a forward list is shown in order"); break; }
  case 4: { std::set<Mark> c(v.begin(), v.end()); same(toString(c), joined("{", c.begin(), c.end(), "}"), "a set is shown in order"); break; }
  case 5: { std::multiset<Mark> c(v.begin(), v.end()); same(toString(c), joined("{", c.begin(), c.end(), "}"), "a multiset is shown in order"); break; }
  case 6: { std::unordered_set<Mark, HashMark> c(v.begin(), v.end()); same(toString(c), joined("{", c.begin(), c.end(), "}"), "an unordered set is shown in iteration order"); break; }
  case 7: { std::unordered_multiset<Mark, HashMark> c(v.begin(), v.end()); same(toString(c), joined("{", c.begin(), c.end(), "}"), "an unordered multiset is shown in iteration order"); break; }
  case 8: { std::map<Mark, Mark> c; for (auto m : v) c[m] = Mark{'v'}; same(toString(c), joinedPairs(c.begin(), c.end()), "a map is shown as pairs in order"); break; }
  case 9: { std::multimap<Mark, Mark> c; for (auto m : v) c.emplace(m, m); same(toString(c), joinedPairs(c.begin(), c.end()), "a multimap is shown as pairs in order"); break; }
  case 10: { std::unordered_map<Mark, Mark, HashMark> c; for (auto m : v) c.emplace(m, m); same(toString(c), joinedPairs(c.begin(), c.end()), "an unordered map is shown as pairs in iteration order"); break; }
  case 11: { std::unordered_multimap<Mark, Mark, HashMark> c; for (auto m : v) c.emplace(m, m); same(toString(c), joinedPairs(c.begin(), c.end()), "an unordered multimap is shown as pairs in iteration order"); break; }
  case 12: { // arrays
    std::array<Mark, 3> a{{Mark{'x'}, Mark{'y'}, Mark{'z'}}};
    for (size_t i = 0; i < v.size() && i < 3; i++) a[i] = v[i];
    same(toString(a), joined("[", a.begin(), a.end(), "]"), "an array is shown in order");
    std::array<Mark, 0> none;
    same(toString(none), "[]", "an empty array is shown as such");
    break;
  }
  default: { // with other delimiters
    std::ostringstream os;
    showCollection("<<", ">", v, os);
    same(os.str(), joined("<<", v.begin(), v.end(), ">"), "a collection is shown between the given delimiters");
    break;
  }
  }
  COVER("container");
}
namespace {
struct Plain { int x; };
struct Streamed { char c; };
std::ostream &operator<<(std::ostream &os, const Streamed &s) { return os << '<' << s.c << '>'; }
struct Both { char c; };
std::ostream &operator<<(std::ostream &os, const Both &) { return os << "wrong"; }
void showValue(const Both &b, std::ostream &os) { os << b.c; }
std::string address(const void *p) {
  std::string s;
  auto u = (uintptr_t)p;
  do s.insert(s.begin(), "0123456789abcdef"[u & 15]); while (u >>= 4);
  return "0x" + s;
}
} // namespace
ENTRY(c27_compound) {
  char a = markChar(), b = markChar(), c = markChar();
  Mark x{a}, y{b}, z{c};
  std::string A(1, a), B(1, b), C(1, c);
  same(toString(std::make_pair(x, y)), "(" + A + ", " + B + ")", "a pair is shown in order");
  same(toString(std::make_tuple()), "()", "an empty tuple is shown as such");
  same(toString(std::make_tuple(x)), "(" + A + ")", "a tuple is shown in order");
  same(toString(std::make_tuple(x, y)), "(" + A + ", " + B + ")", "a tuple is shown in order");
  same(toString(std::make_tuple(x, y, z, Mark{'q'})), "(" + A + ", " + B + ", " + C + ", q)", "a tuple is shown in order");
  same(toString(std::make_pair(std::vector<Mark>{x, y}, std::make_tuple(z, std::string("s")))), "([" + A + ", " + B + "], (" + C + ", \"s\"))", "values nest");
  same(toString(Maybe<Mark>(x)), A, "an optional value shows what it holds");
  same(toString(Maybe<Mark>()), "Nothing", "an absent value is shown as such");
  Mark *p = &x;
  same(toString(p), A + " (" + address(p) + ")", "a pointer shows what it points to and where");
  auto u = std::unique_ptr<Mark>(new Mark(y));
  same(toString(u), B + " (" + address(u.get()) + ")", "a pointer shows what it points to and where");
  auto s = std::make_shared<Mark>(z);
  same(toString(s), C + " (" + address(s.get()) + ")", "a pointer shows what it points to and where");
  std::vector<std::unique_ptr<Mark>> pv;
  pv.push_back(nullptr);
  CHECK(toString(pv) == "[" + toString((Mark *)nullptr) + "]", "null pointers are shown");
  CHECK(!toString(std::shared_ptr<Mark>()).empty() && toString(std::unique_ptr<Mark>()) == toString(std::shared_ptr<Mark>()) && !toString((const char *)nullptr).empty(), "null pointers are shown");
  same(toString(Streamed{a}), "<" + A + ">", "types with a stream operator use it");
  same(toString(Both{a}), A, "showValue is preferred");
  same(toString(Plain{1}), "<?\?\?>", "other types are shown as unknown");
  COVER("compound");
}
// sequences and commands
namespace {
struct None {};
struct Cmd : state::Command<None, None> {
  char c;
  explicit Cmd(char x) : c(x) {}
  void show(std::ostream &os) const override { os << c; }
};
struct Unshown : state::Command<None, None> {};
} // namespace
ENTRY(c27_sequences) {
  int n = (int)pick("n", 0, sym_param("n", 3));
  auto v = marks(n);
  std::ostringstream os;
  auto seq = seq::fromContainer(v);
  os << seq;
  same(os.str(), joined("[", v.begin(), v.end(), "]"), "a sequence is shown as the list of its elements");
  CHECK(seq::length(seq) == (size_t)n, "showing a sequence leaves it unchanged");
  same(toString(seq), os.str(), "a sequence is shown the same way everywhere");
  state::Commands<state::Command<None, None>> cmds;
  std::string want;
  for (auto &m : v) { cmds.push_back(std::make_shared<Cmd>(m.c)); want += m.c; want += '\n'; }
  same(toString(cmds), want, "commands are shown in order, one per line");
  if (n) same(toString(static_cast<const state::Command<None, None> &>(*cmds[0])), want.substr(0, 1), "a command shows itself");
  COVER("sequences");
}
ENTRY(c27_endless) {
  std::ostringstream os;
  os << seq::repeat(7);
  auto s = os.str();
  CHECK(s.size() > 100 && s.substr(0, 8) == "[7, 7, 7" && s.substr(s.size() - 6) == ", ...]", "an endless sequence is cut off");
  std::ostringstream name;
  Unshown().show(name);
  CHECK(name.str().find("Unshown") != std::string::npos, "a command shows the name of its type unless told otherwise");
  COVER("endless");
}
