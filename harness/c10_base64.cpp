// C10: the printable reproduction encoding is lossless and total.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include "detail/Base64.h"
#include "detail/StringSerialization.h"
#include "detail/ParseException.h"
using namespace rc;
using namespace rc::detail;
namespace {
typedef std::vector<uint8_t> Bytes;
bool inAlphabet(char c) {
  bool up = both(c >= 'A', c <= 'Z'), lo = both(c >= 'a', c <= 'z'), di = both(c >= '0', c <= '9');
  return either(either(up, lo), either(di, either(c == '+', c == '_')));
}
void roundtrip(const Bytes &b) {
  std::string s = base64Encode(b);
  for (char c : s) CHECK(inAlphabet(c), "the text uses the printable alphabet only");
  CHECK(s.size() == (b.size() * 4 + 2) / 3, "the text has four characters per three bytes");
  Bytes d = base64Decode(s);
  CHECK(d.size() == b.size(), "decoding the text yields the same bytes");
  for (size_t i = 0; i < b.size() && i < d.size(); i++) CHECK(d[i] == b[i], "decoding the text yields the same bytes");
}
template <typename F> bool fails(F f, size_t size) {
  bool threw = false, other = false;
  size_t at = 0;
  try { f(); } catch (const ParseException &e) { threw = true; at = e.position(); } catch (...) { other = true; }
  CHECK(!other, "arbitrary text yields bytes or the parse error and nothing else");
  if (threw) CHECK(at <= size, "the position of the error is inside or just at the end of the text");
  return threw;
}
std::string symText(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back((char)sym<char>("c"));
  return s;
}
Reproduce symReproduce(int paths) {
  Reproduce r;
  r.random = Random(Random::Key{{sym<uint64_t>("k0"), 7, 1ull << 63, 0x0123456789abcdef}});
  if (pick("split", 0, 1)) r.random = r.random.split();
  r.size = sym<int>("size");
  int n = (int)pick("path", 0, paths);
  for (int i = 0; i < n; i++) r.shrinkPath.push_back(i ? (size_t)range("p", 0, 200) : sym<size_t>("p"));
  return r;
}
typedef std::unordered_map<std::string, Reproduce> M;
bool same(const Reproduce &a, const Reproduce &b) {
  bool ok = both(a.random == b.random, a.size == b.size);
  if (a.shrinkPath.size() != b.shrinkPath.size()) return false;
  for (size_t i = 0; i < a.shrinkPath.size(); i++) ok = both(ok, a.shrinkPath[i] == b.shrinkPath[i]);
  return ok;
}
} // namespace
ENTRY(c10_roundtrip) {
  size_t n = (size_t)pick("n", 0, sym_param("n", 7));
  Bytes b;
  for (size_t i = 0; i < n; i++) b.push_back(sym<uint8_t>("b"));
  roundtrip(b);
  COVER("roundtrip");
}
// long inputs: an arbitrary byte in any position of a long string
ENTRY(c10_roundtrip_long) {
  size_t n = (size_t)pick("n", 8, sym_param("n", 33));
  Bytes b;
  for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(i * 37 + 200));
  size_t at = (size_t)pick("at", 0, (int64_t)n - 1);
  b[at] = sym<uint8_t>("b");
  if (at + 1 < n) b[at + 1] = sym<uint8_t>("b");
  roundtrip(b);
  COVER("long");
}
ENTRY(c10_decode_any) {
  std::string s = symText((size_t)pick("n", 0, sym_param("n", 9)));
  bool bad = s.size() % 4 == 1;
  Bytes d;
  bool threw = fails([&] { d = base64Decode(s); }, s.size());
  for (char c : s) bad = either(bad, !inAlphabet(c));
  CHECK(threw == bad, "exactly text with characters outside the alphabet or of impossible length is rejected");
  if (!threw) CHECK(d.size() == s.size() * 3 / 4, "three bytes for four characters");
  if (threw) COVER("error"); else COVER("bytes");
}
ENTRY(c10_map) {
  M m;
  int n = (int)pick("n", 0, 2);
  for (int i = 0; i < n; i++) {
    std::string k = symText((size_t)pick("klen", 0, 2));
    if (i == 0) m[k] = symReproduce((int)sym_param("path", 2));
    else { Reproduce r; r.random = Random(sym<uint64_t>("seed")); r.size = sym<int>("size"); r.shrinkPath = {5}; m[k] = r; }
  }
  std::string s = reproduceMapToString(m);
  M out = stringToReproduceMap(s);
  CHECK(out.size() == m.size(), "a printed map parses back to an equal map");
  for (auto &p : m) {
    auto f = out.find(p.first);
    CHECK(f != out.end(), "every property of a printed map survives");
    if (f != out.end()) CHECK(same(f->second, p.second), "every record of a printed map survives");
  }
  COVER("map");
}
ENTRY(c10_map_long_key) {
  static const int ls[] = {100, 127, 128, 129, 255, 256, 300};
  M m;
  std::string k((size_t)ls[pick("len", 0, 6)], 'k');
  k[0] = (char)sym<char>("first");
  k[k.size() - 1] = (char)sym<char>("last");
  m[k] = symReproduce(1);
  M out = stringToReproduceMap(reproduceMapToString(m));
  CHECK(out.size() == 1 && eqStr(out.begin()->first, k), "a long property name survives");
  if (out.size() == 1) CHECK(same(out.begin()->second, m.begin()->second), "the record of a long property name survives");
  COVER("long key");
}
// any text whatsoever
ENTRY(c10_map_any_text) {
  std::string s = symText((size_t)pick("n", 0, sym_param("n", 6)));
  if (fails([&] { stringToReproduceMap(s); }, s.size())) COVER("error"); else COVER("map");
}
// a printed map with one character replaced, or cut off
ENTRY(c10_map_corrupted) {
  M m;
  std::string k = "ab";
  Reproduce r;
  r.random = Random(5).split();
  r.size = 3;
  r.shrinkPath = {1, 200};
  m[k] = r;
  std::string s = reproduceMapToString(m);
  if (pick("cut", 0, 1)) {
    s.resize((size_t)pick("keep", 0, (int64_t)s.size() - 1));
    bool threw = fails([&] { stringToReproduceMap(s); }, s.size());
    CHECK(threw, "a truncated map is rejected");
    COVER("cut");
  } else {
    size_t at = (size_t)pick("at", 0, (int64_t)s.size() - 1);
    s[at] = (char)sym<char>("c");
    fails([&] { stringToReproduceMap(s); }, s.size());
    COVER("changed");
  }
}
