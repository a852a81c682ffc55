// C09: binary serialization round-trips and rejects malformed input safely.
#include "sym.h"
#include <rapidcheck.h>
#include "common.h"
#include "rapidcheck/detail/Serialization.h"
#include "rapidcheck/detail/Results.h"
#include <memory>
using namespace rc;
using namespace rc::detail;
namespace {
typedef std::vector<uint8_t> Bytes;
// a block of exactly n bytes: reading one byte more is out of bounds
struct Block {
  size_t n;
  std::unique_ptr<uint8_t[]> p;
  explicit Block(const Bytes &b, size_t extra = 0) : n(b.size() + extra), p(new uint8_t[n]) {
    for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
    for (size_t i = b.size(); i < n; i++) p[i] = sym<uint8_t>("tail");
  }
  explicit Block(size_t len) : n(len), p(new uint8_t[len]) {
    for (size_t i = 0; i < n; i++) p[i] = sym<uint8_t>("byte");
  }
  const uint8_t *begin() const { return p.get(); }
  const uint8_t *end() const { return p.get() + n; }
};
size_t tail() { return (size_t)pick("tailLen", 0, 2); }
template <typename T> void fixedInt() {
  T v = sym<T>("v");
  Bytes b;
  serialize(v, std::back_inserter(b));
  Block k(b, tail());
  T out = T();
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(out == v, "an integer decodes to what was encoded");
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  // through a raw output pointer
  Block raw(Bytes(b.size()));
  uint8_t *e = serialize(v, raw.p.get());
  CHECK(e == raw.end(), "encoding writes exactly that many bytes");
  for (size_t i = 0; i < b.size(); i++) CHECK(raw.p[i] == b[i], "encoding is deterministic");
  // little endian, one byte per 8 bits
  CHECK(b.size() == sizeof(T), "fixed-width encodings have the width of the type");
}
template <typename T> void compactInt() {
  T v = sym<T>("v");
  Bytes b;
  serializeCompact(v, std::back_inserter(b));
  Block k(b, tail());
  T out = T();
  auto it = deserializeCompact(k.begin(), k.end(), out);
  CHECK(out == v, "a variable-length integer decodes to what was encoded");
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  for (size_t i = 0; i < b.size(); i++) CHECK(((b[i] & 0x80) != 0) == (i + 1 < b.size()), "only the last byte has the top bit clear");
}
template <typename F> void malformed(size_t lo, size_t hi, F f) {
  Block k((size_t)pick("len", (int64_t)lo, (int64_t)hi));
  bool threw = false, other = false;
  const uint8_t *it = nullptr;
  try {
    it = f(k.begin(), k.end());
  } catch (const SerializationException &) {
    threw = true;
  } catch (...) {
    other = true;
  }
  CHECK(!other, "malformed input fails with the serialization error and nothing else");
  if (!threw && !other) {
    CHECK(it >= k.begin() && it <= k.end(), "the position stays inside the input");
    COVER("value");
  } else COVER("error");
}
template <typename T> void malformedInt() {
  if (pick("compact", 0, 1)) malformed(0, sym_param("len", 12), [](const uint8_t *b, const uint8_t *e) { T v; return deserializeCompact(b, e, v); });
  else malformed(0, sizeof(T) + 1, [](const uint8_t *b, const uint8_t *e) { T v; return deserialize(b, e, v); });
}
std::string symStr(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s.push_back(i < 3 || i + 2 > n ? (char)sym<char>("c") : (char)('a' + i % 26));
  return s;
}
size_t anyLen(const char *name, int small) {
  static const int ls[] = {126, 127, 128, 129, 200, 255, 256, 257, 300};
  int i = (int)pick(name, 0, small + (sym_param("long", 1) ? 9 : 0));
  return i <= small ? (size_t)i : (size_t)ls[i - small - 1];
}
void mustFail(bool threw) { CHECK(threw, "a truncated encoding is rejected"); }
} // namespace
#define I9(n, T)                                                               \
  ENTRY(c09_fixed_##n) { fixedInt<T>(); COVER("fixed"); }                      \
  ENTRY(c09_compact_##n) { compactInt<T>(); COVER("compact"); }                \
  ENTRY(c09_malformed_##n) { malformedInt<T>(); COVER("int"); }
I9(i8, int8_t) I9(u8, uint8_t) I9(i16, int16_t) I9(u16, uint16_t) I9(i32, int32_t) I9(u32, uint32_t) I9(i64, int64_t) I9(u64, uint64_t)
ENTRY(c09_string) {
  std::string s = symStr(anyLen("n", 3));
  Bytes b;
  serialize(s, std::back_inserter(b));
  Block k(b, tail());
  std::string out = "previous content";
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(eqStr(out, s), "a string decodes to what was encoded");
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  COVER("string");
}
ENTRY(c09_string_truncated) {
  std::string s = symStr(anyLen("n", 2));
  Bytes b;
  serialize(s, std::back_inserter(b));
  size_t cut = (size_t)pick("cut", 0, (int64_t)std::min<size_t>(b.size() - 1, 4));
  b.resize(b.size() - 1 - cut);
  Block k(b);
  bool threw = false;
  std::string out;
  try { deserialize(k.begin(), k.end(), out); } catch (const SerializationException &) { threw = true; }
  mustFail(threw);
  COVER("truncated");
}
ENTRY(c09_string_malformed) {
  malformed(0, (size_t)sym_param("len", 11), [](const uint8_t *b, const uint8_t *e) { std::string s; return deserialize(b, e, s); });
  COVER("string");
}
ENTRY(c09_pair) {
  std::pair<std::string, std::pair<uint16_t, int64_t>> p(symStr((size_t)pick("n", 0, 2)), {sym<uint16_t>("a"), sym<int64_t>("b")}), out;
  Bytes b;
  serialize(p, std::back_inserter(b));
  Block k(b, tail());
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(eqStr(p.first, out.first), "a pair decodes to what was encoded");
  CHECK(both(p.second.first == out.second.first, p.second.second == out.second.second), "a pair decodes to what was encoded");
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  COVER("pair");
}
ENTRY(c09_map) {
  typedef std::unordered_map<std::string, uint32_t> M;
  M m, out;
  int n = (int)pick("n", 0, sym_param("n", 3));
  for (int i = 0; i < n; i++) {
    std::string key = symStr((size_t)pick("klen", 0, 2));
    m[key] = sym<uint32_t>("v");
  }
  out["stale"] = 1;
  Bytes b;
  serialize(m, std::back_inserter(b));
  Block k(b, tail());
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out.size() == m.size(), "a map decodes to what was encoded");
  for (auto &p : m) {
    auto f = out.find(p.first);
    CHECK(f != out.end(), "every key of a map survives");
    if (f != out.end()) CHECK(f->second == p.second, "every value of a map survives");
  }
  COVER("map");
}
// a map of many entries: the entry count itself takes more than one byte
ENTRY(c09_map_many) {
  typedef std::unordered_map<uint32_t, uint8_t> M;
  M m, out;
  int ns[] = {100, 127, 128, 129};
  int n = ns[pick("n", 0, 3)];
  uint8_t x = sym<uint8_t>("x");
  for (int i = 0; i < n; i++) m[(uint32_t)i * 7] = (uint8_t)(x + i);
  Bytes b;
  serialize(m, std::back_inserter(b));
  Block k(b, 1);
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out.size() == m.size(), "a map decodes to what was encoded");
  for (int i = 0; i < n; i++) CHECK(out[(uint32_t)i * 7] == (uint8_t)(x + i), "every entry of a map survives");
  COVER("many");
}
ENTRY(c09_map_malformed) {
  malformed(0, (size_t)sym_param("len", 6), [](const uint8_t *b, const uint8_t *e) { std::unordered_map<std::string, uint8_t> m; return deserialize(b, e, m); });
  COVER("map");
}
ENTRY(c09_n) {
  size_t n = (size_t)pick("n", 0, 4);
  std::vector<int32_t> v, out;
  for (size_t i = 0; i < n; i++) v.push_back(sym<int32_t>("v"));
  Bytes b;
  serializeN(v.begin(), n, std::back_inserter(b));
  Block k(b, tail());
  auto it = deserializeN<int32_t>(k.begin(), k.end(), n, std::back_inserter(out));
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out.size() == n, "a sequence decodes to what was encoded");
  for (size_t i = 0; i < n && i < out.size(); i++) CHECK(out[i] == v[i], "a sequence decodes to what was encoded");
  COVER("n");
}
template <typename T> static void compactRange(size_t n, int symbolic) {
  std::vector<T> v, out;
  for (size_t i = 0; i < n; i++) v.push_back((int)i < symbolic ? sym<T>("v") : (T)(i * 77));
  Bytes b;
  serializeCompact(v.begin(), v.end(), std::back_inserter(b));
  Block k(b, tail());
  auto r = deserializeCompact<T>(k.begin(), k.end(), std::back_inserter(out));
  CHECK(r.first == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out.size() == v.size(), "a compact sequence decodes to what was encoded");
  for (size_t i = 0; i < v.size() && i < out.size(); i++) CHECK(out[i] == v[i], "a compact sequence decodes to what was encoded");
}
ENTRY(c09_compact_range) {
  size_t n = anyLen("n", 2);
  switch (pick("type", 0, 2)) {
  case 0: compactRange<uint64_t>(n, 2); break;
  case 1: compactRange<int32_t>(n, 2); break;
  case 2: compactRange<uint8_t>(n, 2); break;
  }
  COVER("range");
}
ENTRY(c09_compact_range_malformed) {
  malformed(0, (size_t)sym_param("len", 6), [](const uint8_t *b, const uint8_t *e) { std::vector<uint64_t> v; return deserializeCompact<uint64_t>(b, e, std::back_inserter(v)).first; });
  COVER("range");
}
// ---- generators and reproduction records
static Random someRandom() {
  Random r(Random::Key{{sym<uint64_t>("k0"), sym<uint64_t>("k1"), sym<uint64_t>("k2"), sym<uint64_t>("k3")}});
  if (pick("split", 0, 1)) r = r.split();
  int draws = (int)pick("draws", 0, 1) * 5;
  for (int i = 0; i < draws; i++) r.next();
  return r;
}
static Random anyRandom() {
  // a fully symbolic key, some splits, some draws
  Random::Key key{{sym<uint64_t>("k0"), sym<uint64_t>("k1"), sym<uint64_t>("k2"), sym<uint64_t>("k3")}};
  Random r(key);
  int splits = (int)pick("splits", 0, 3);
  for (int i = 0; i < splits; i++) { Random o = r.split(); if (pick("right", 0, 1)) r = o; }
  int extra = (int)pick("manySplits", 0, 2) * 60;
  for (int i = 0; i < extra; i++) { Random o = r.split(); if (i % 3) r = o; }
  int draws = (int)pick("draws", 0, 5);
  for (int i = 0; i < draws; i++) r.next();
  return r;
}
ENTRY(c09_random) {
  Random r = anyRandom();
  Bytes b;
  serialize(r, std::back_inserter(b));
  Block k(b, tail());
  Random out(5);
  int hist = (int)pick("history", 0, 2);
  for (int i = 0; i < hist; i++) out.next();
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out == r, "a generator decodes to an equal generator");
  CHECK(!(out != r) && !(out < r) && !(r < out), "a generator decodes to an equal generator");
  COVER("random");
}
ENTRY(c09_random_malformed) {
  // every length; the key is 32 bytes, then two variable-length integers and one byte
  malformed((size_t)sym_param("from", 0), (size_t)sym_param("len", 38), [](const uint8_t *b, const uint8_t *e) {
    Random r;
    auto it = deserialize(b, e, r);
    // whatever was decoded is a usable generator
    Random c(r);
    (void)c.next();
    return it;
  });
  COVER("random");
}
ENTRY(c09_random_splittable) {
  // a decoded generator that can still be split is usable for splitting
  malformed(35, 36, [](const uint8_t *b, const uint8_t *e) {
    ASSUME((b[32] & 0x80) == 0);
    ASSUME(b[33] == 0); // counter
    Random r;
    auto it = deserialize(b, e, r);
    Random o = r.split();
    (void)o.next();
    (void)r.next();
    return it;
  });
  COVER("split");
}
ENTRY(c09_reproduce) {
  Reproduce r, out;
  r.random = someRandom();
  r.size = sym<int>("size");
  int n = (int)pick("path", 0, sym_param("path", 2));
  for (int i = 0; i < n; i++) r.shrinkPath.push_back(sym<size_t>("p"));
  out.shrinkPath.push_back(3);
  Bytes b;
  serialize(r, std::back_inserter(b));
  Block k(b, tail());
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out.random == r.random, "the generator of a reproduction record survives");
  CHECK(out.size == r.size, "the size of a reproduction record survives");
  CHECK(out.shrinkPath.size() == r.shrinkPath.size(), "the path of a reproduction record survives");
  for (size_t i = 0; i < r.shrinkPath.size() && i < out.shrinkPath.size(); i++) CHECK(out.shrinkPath[i] == r.shrinkPath[i], "the path of a reproduction record survives");
  CHECK(out == r, "a reproduction record decodes to an equal one");
  COVER("reproduce");
}
ENTRY(c09_reproduce_long) {
  Reproduce r, out;
  r.random = Random(sym<uint64_t>("seed"));
  r.size = sym<int>("size");
  int ns[] = {100, 127, 128, 129, 300};
  int n = ns[pick("n", 0, 4)];
  for (int i = 0; i < n; i++) r.shrinkPath.push_back((size_t)i * 3);
  Bytes b;
  serialize(r, std::back_inserter(b));
  Block k(b, 1);
  auto it = deserialize(k.begin(), k.end(), out);
  CHECK(it == k.begin() + b.size(), "decoding stops right after the encoding");
  CHECK(out == r, "a reproduction record decodes to an equal one");
  COVER("long");
}
ENTRY(c09_reproduce_truncated) {
  Reproduce r, out;
  r.random = Random(sym<uint64_t>("seed"));
  r.size = sym<int>("size");
  int n = (int)pick("path", 0, 2);
  for (int i = 0; i < n; i++) r.shrinkPath.push_back((size_t)range("p", 0, 100));
  Bytes b;
  serialize(r, std::back_inserter(b));
  b.resize((size_t)pick("keep", 0, (int64_t)b.size() - 1));
  Block k(b);
  bool threw = false;
  try { deserialize(k.begin(), k.end(), out); } catch (const SerializationException &) { threw = true; }
  mustFail(threw);
  COVER("truncated");
}
