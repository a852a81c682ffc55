// C11: setting maps printed as text and parsed back.
#include <rapidcheck.h>
#include "sym.h"
#include "common.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
using namespace rc::detail;
typedef std::map<std::string, std::string> M;

static std::string symText(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += (char)sym<char>("c");
  return s;
}
static bool sameMap(const M &a, const M &b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin();
  auto j = b.begin();
  for (; i != a.end(); ++i, ++j)
    if (!eqStr(i->first, j->first) || !eqStr(i->second, j->second)) return false;
  return true;
}
static void roundtrip(const M &m, bool dq) {
  M out;
  try {
    out = parseMap(mapToString(m, dq));
  } catch (const ParseException &) {
    CHECK(false, "printed settings parse");
    return;
  }
  CHECK(sameMap(m, out), "printed settings parse back to the identical map");
}
static void roundtripParam(const M &m) { roundtrip(m, sym_param("dq", 0) != 0); }
// one entry with an arbitrary key and value
ENTRY(c11_one) {
  M m;
  size_t k = (size_t)pick("klen", 1, sym_param("k", 2)), v = (size_t)pick("vlen", 0, sym_param("v", 2));
  std::string key = symText(k);
  m[key] = symText(v);
  roundtripParam(m);
  COVER("one");
}
ENTRY(c11_key) {
  M m;
  std::string key = symText((size_t)pick("klen", 1, sym_param("k", 4)));
  m[key] = pick("v", 0, 1) ? "x" : "";
  roundtripParam(m);
  COVER("key");
}
ENTRY(c11_value) {
  M m;
  m["k"] = symText((size_t)pick("vlen", 0, sym_param("v", 4)));
  roundtripParam(m);
  COVER("value");
}
// entries next to each other
ENTRY(c11_two) {
  M m;
  std::string a = symText((size_t)pick("alen", 1, sym_param("k", 1)));
  m[a] = symText((size_t)pick("avlen", 0, 1));
  std::string b = symText((size_t)pick("blen", 1, sym_param("k", 1)));
  m[b] = symText((size_t)pick("bvlen", 0, 1));
  roundtripParam(m);
  if (m.size() == 2) COVER("two");
}
ENTRY(c11_many) {
  M m;
  int n = (int)pick("n", 0, 4);
  static const char *const ks[] = {"plain", "with space", "qu'ote", "eq=\\"};
  static const char *const vs[] = {"", "a b", "\"", "\\ '"};
  for (int i = 0; i < n; i++) m[ks[i]] = vs[pick("v", 0, 3)];
  m["m"] = symText(1);
  roundtripParam(m);
  COVER("many");
}
static bool parses(const std::string &s, M &m) {
  bool threw = false;
  try {
    m = parseMap(s);
  } catch (const ParseException &e) {
    threw = true;
    CHECK(e.position() <= s.size(), "the error position is inside the text or just at its end");
  } catch (...) {
    CHECK(false, "only the documented parse error is thrown");
    threw = true;
  }
  return !threw;
}
ENTRY(c11_any_text) {
  std::string s = symText((size_t)pick("n", 0, sym_param("n", 5)));
  M m;
  if (!parses(s, m)) { COVER("error"); return; }
  for (auto &p : m) CHECK(!p.first.empty(), "no setting has an empty name");
  roundtrip(m, sym_param("dq", 0) != 0);
  COVER("map");
}
// arbitrary text at the end of a string whose buffer has the exact size
ENTRY(c11_any_tail) {
  static const char *const heads[] = {"seed=12345 max_size=7 ", "a='quoted text' beta=x", "key = \"the value of "};
  std::string h = heads[pick("head", 0, 2)];
  size_t n = (size_t)pick("n", 0, sym_param("n", 3));
  std::string s = h + symText(n);
  std::string exact(s.data(), s.size());
  M m;
  if (parses(exact, m)) COVER("map"); else COVER("error");
}
// an unterminated quote is an error, whatever it contains
ENTRY(c11_unterminated) {
  char q = pick("q", 0, 1) ? '"' : '\'';
  std::string body;
  size_t n = (size_t)pick("n", 0, sym_param("n", 3));
  for (size_t i = 0; i < n; i++) {
    char c = (char)sym<char>("c");
    ASSUME(c != q);
    if (pick("esc", 0, 1)) body += '\\'; else ASSUME(c != '\\');
    body += c;
  }
  std::string s = (pick("key", 0, 1) ? std::string("k=") : std::string()) + q + body;
  if (pick("escaped", 0, 1)) s += std::string("\\") + q;
  M m;
  CHECK(!parses(s, m), "an unterminated quotation is reported");
  COVER("unterminated");
}
// the last of several values for a key counts, words without a value are empty
ENTRY(c11_meaning) {
  std::string a = symText(1), b = symText(1);
  unsigned plain = 1;
  for (char c : a + b) plain &= (unsigned)!(c == ' ' || (c >= 9 && c <= 13) || c == '=' || c == '\'' || c == '"');
  ASSUME(plain);
  std::string sp = pick("sp", 0, 1) ? " " : "\t\n";
  std::string eq = pick("eq", 0, 1) ? "=" : " = ";
  M m;
  switch (pick("case", 0, 3)) {
  case 0:
    CHECK(parses(a + eq + b, m) && m.size() == 1 && eqStr(m.begin()->first, a) && eqStr(m.begin()->second, b), "a setting with a value");
    break;
  case 1:
    CHECK(parses(sp + a + sp + b + sp, m), "words parse");
    CHECK(m.size() == (a == b ? 1u : 2u) && m.count(a) == 1 && m.count(b) == 1 && m[a].empty() && m[b].empty(), "settings without values are empty");
    break;
  case 2:
    CHECK(parses("k" + eq + a + sp + "k" + eq + b, m) && m.size() == 1 && eqStr(m["k"], b), "the last value of a setting counts");
    break;
  default:
    CHECK(parses("k" + eq + "'" + a + " \\" + b + "'" + sp + "l", m), "quoted value parses");
    CHECK(m.size() == 2 && eqStr(m["k"], a == "\\" ? " \\" + b : a + " " + b) || a == "\\", "a quoted value is taken literally");
    break;
  }
  COVER("meaning");
}
