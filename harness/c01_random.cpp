// C01: the random stream is the documented block hash of key, split path and counter.
#include "sym.h"
#include <rapidcheck.h>
#include <rapidcheck/detail/Serialization.h>
#include <vector>
using rc::Random;
namespace {
typedef uint64_t u64;
u64 rotl(u64 x, unsigned k) { return (x << k) | (x >> (64 - k)); }
// Threefish-256, 72 rounds, tweak {13, 37}: independent reference.
void threefish(const u64 key[4], u64 in0, u64 in1, u64 out[4]) {
  static const unsigned R[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}};
  u64 k[5] = {key[0], key[1], key[2], key[3], 0x1BD11BDAA9FC1A22ULL};
  for (int i = 0; i < 4; i++) k[4] ^= key[i];
  u64 t[3] = {13, 37, 13 ^ 37};
  u64 x[4] = {in0, in1, 0, 0};
  for (unsigned d = 0; d < 72; d++) {
    if (d % 4 == 0) {
      unsigned s = d / 4;
      x[0] += k[s % 5];
      x[1] += k[(s + 1) % 5] + t[s % 3];
      x[2] += k[(s + 2) % 5] + t[(s + 1) % 3];
      x[3] += k[(s + 3) % 5] + s;
    }
    x[0] += x[1]; x[1] = rotl(x[1], R[d % 8][0]) ^ x[0];
    x[2] += x[3]; x[3] = rotl(x[3], R[d % 8][1]) ^ x[2];
    u64 tmp = x[1]; x[1] = x[3]; x[3] = tmp;
  }
  unsigned s = 18;
  out[0] = x[0] + k[s % 5];
  out[1] = x[1] + k[(s + 1) % 5] + t[s % 3];
  out[2] = x[2] + k[(s + 2) % 5] + t[(s + 1) % 3];
  out[3] = x[3] + k[(s + 3) % 5] + s;
}
struct Model {
  u64 key[4];
  u64 bits = 0, counter = 0;
  unsigned nbits = 0;
  void append(bool b) {
    if (nbits == 64) {
      u64 o[4];
      threefish(key, bits, counter, o);
      for (int i = 0; i < 4; i++) key[i] = o[i];
      bits = 0; nbits = 0;
    }
    if (b) bits |= u64(1) << nbits;
    nbits++;
  }
  u64 word() const {
    u64 o[4];
    threefish(key, bits, counter - counter % 4, o);
    return o[counter % 4];
  }
  void advance() {
    if (counter == ~u64(0)) { append(true); counter = 0; } else counter++;
  }
};
Random::Key symKey(Model &m) {
  Random::Key k;
  for (int i = 0; i < 4; i++) { k[i] = sym<u64>("key"); m.key[i] = k[i]; }
  return k;
}
void draws(Random &r, Model &m, int n) {
  for (int i = 0; i < n; i++) {
    u64 v = r.next();
    CHECK(v == m.word(), "the drawn word is the block hash of key, split path and counter");
    m.advance();
    if (i == 0) sym_out("w", v);
  }
}
// one split; dir: keep the left or the right generator
void split(Random &r, Model &m, bool right) {
  Random other = r.split();
  if (right) r = other;
  m.append(right);
}
// a value of exactly len varint groups, and its canonical encoding
u64 varint(std::vector<uint8_t> &out, const char *name, int len) {
  u64 v = sym<u64>(name);
  if (len < 10) v &= (u64(1) << (7 * len)) - 1;
  if (len > 1) ASSUME((v >> (7 * (len - 1))) != 0);
  for (int i = 0; i < len; i++) out.push_back((uint8_t)(((v >> (7 * i)) & 0x7F) | (i + 1 < len ? 0x80 : 0)));
  return v;
}
} // namespace
// key -> n words, any key
ENTRY(c01_from_key) {
  Model m;
  Random r(symKey(m));
  draws(r, m, (int)sym_param("n", 13));
  COVER("from_key");
}
ENTRY(c01_from_seed) {
  u64 s = sym<u64>("seed");
  Random r(s);
  Model m;
  for (auto &k : m.key) k = s;
  draws(r, m, 5);
  Random z;
  Model mz;
  for (auto &k : mz.key) k = 0;
  draws(z, mz, 5);
  COVER("from_seed");
}
// any short split path, then draws
ENTRY(c01_short_paths) {
  Model m;
  Random r(symKey(m));
  int n = pick("splits", 0, 4);
  for (int i = 0; i < n; i++) split(r, m, pick("right", 0, 1) != 0);
  draws(r, m, 6);
  COVER("short_paths");
}
// long split paths across the point where the path register is full
ENTRY(c01_long_paths) {
  Model m;
  Random r(symKey(m));
  int n = (int)sym_param("prefix", 62);
  int pat = pick("pattern", 0, 3);
  for (int i = 0; i < n; i++) split(r, m, pat == 0 ? false : pat == 1 ? true : pat == 2 ? (i & 1) != 0 : (i * 7 % 5) < 2);
  int k = pick("more", 0, 4);
  for (int i = 0; i < k; i++) split(r, m, pick("right", 0, 1) != 0);
  draws(r, m, 5);
  COVER("long_paths");
}
// both halves of a split are the two extensions of the path
ENTRY(c01_split_halves) {
  Model m;
  Random r(symKey(m));
  int n = pick("splits", 0, 2);
  for (int i = 0; i < n; i++) split(r, m, pick("right", 0, 1) != 0);
  Model ml = m, mr = m;
  Random right = r.split();
  ml.append(false); mr.append(true);
  draws(r, ml, 5);
  draws(right, mr, 5);
  COVER("halves");
}
// copying, comparing, hashing, printing do not disturb the stream
ENTRY(c01_pure_observers) {
  Model m;
  Random r(symKey(m));
  int n = pick("drawn", 0, 5);
  draws(r, m, n);
  Random c(r), d;
  d = r;
  CHECK(c == r, "a copy is equal");
  CHECK(!(c != r), "a copy is not unequal");
  CHECK(!(c < r) && !(r < c), "a copy is neither less nor greater");
  (void)std::hash<Random>()(r);
  Model m1 = m, m2 = m, m3 = m;
  draws(c, m1, 6);
  draws(r, m2, 6);
  CHECK(c == r, "equal again after the same draws");
  draws(d, m3, 3);
  COVER("observers");
}
// two generators at different positions of one stream compare unequal
ENTRY(c01_positions_differ) {
  Random r(u64(0x1234567)), c(r);
  int n = pick("drawn", 0, 9), k = pick("ahead", 1, 9);
  for (int i = 0; i < n; i++) { r.next(); c.next(); }
  CHECK(c == r && !(c != r) && !(c < r) && !(r < c), "equal after equal histories");
  for (int i = 0; i < k; i++) c.next();
  CHECK(c != r && !(c == r), "drawing makes it differ from its copy");
  CHECK((c < r) != (r < c), "different generators are ordered");
  Random l(r), g = Random(u64(5));
  Random gl = g;
  Random gr = gl.split();
  CHECK(gl != gr && gl != g && gr != g, "the halves of a split differ from each other and from their origin");
  CHECK(gl.next() != gr.next(), "the halves of a split give different numbers");
  COVER("differ");
}
// ordering is a strict weak order consistent with equality
ENTRY(c01_ordering) {
  Model ma, mb;
  Random a(symKey(ma)), b(symKey(mb));
  bool lt = a < b, gt = b < a, eq = a == b;
  CHECK((unsigned)lt + (unsigned)gt + (unsigned)eq == 1, "exactly one of <, >, ==");
  unsigned same = 1;
  for (int i = 0; i < 4; i++) same &= (unsigned)(ma.key[i] == mb.key[i]);
  CHECK(eq == (same != 0), "fresh generators are equal exactly when their keys are");
  COVER("ordering");
}
// serialization at any position: any key, path bits, any counter (incl. wrap)
ENTRY(c01_any_position) {
  Model m;
  std::vector<uint8_t> buf;
  for (int i = 0; i < 4; i++) {
    m.key[i] = sym<u64>("key");
    for (int b = 0; b < 8; b++) buf.push_back((uint8_t)(m.key[i] >> (8 * b)));
  }
  m.nbits = (unsigned)pick("nbits", 0, 2) * 32;
  unsigned phase = (unsigned)pick("phase", 0, 3);
  if (m.nbits == 0) buf.push_back(0);
  else m.bits = varint(buf, "bits", m.nbits == 32 ? 4 : 10);
  // the low group of the counter carries the phase, the rest is free
  int len = (int)pick("counterLen", 1, 10);
  u64 q = sym<u64>("counter");
  if (len < 10) q &= (u64(1) << (7 * len)) - 1;
  m.counter = ((q >> 2) << 2) | phase;
  if (len > 1) ASSUME((q >> (7 * (len - 1))) != 0);
  for (int i = 0; i < len; i++) buf.push_back((uint8_t)(((m.counter >> (7 * i)) & 0x7F) | (i + 1 < len ? 0x80 : 0)));
  buf.push_back((uint8_t)m.nbits);
  Random r;
  auto it = rc::deserialize(buf.begin(), buf.end(), r);
  CHECK(it == buf.end(), "the encoded generator is consumed completely");
  u64 o[4];
  threefish(m.key, m.bits, (q >> 2) << 2, o);
  for (unsigned ph = phase; ph < 4; ph++) CHECK(r.next() == o[ph], "after restoring, the stream continues at the recorded position");
  COVER("any_position");
}
ENTRY(c01_counter_wrap) {
  Model m;
  std::vector<uint8_t> buf;
  for (int i = 0; i < 4; i++) {
    m.key[i] = sym<u64>("key");
    for (int b = 0; b < 8; b++) buf.push_back((uint8_t)(m.key[i] >> (8 * b)));
  }
  m.nbits = (unsigned)pick("nbits", 0, 2) * 32;
  m.bits = m.nbits == 0 ? 0 : m.nbits == 32 ? 0x9ABCDEF1ULL : 0x8765432112345678ULL;
  m.counter = ~u64(0) - (u64)pick("before", 0, 5);
  auto enc = [&](u64 v) { do { uint8_t b = v & 0x7F; v >>= 7; buf.push_back(b | (v ? 0x80 : 0)); } while (v); };
  enc(m.bits);
  enc(m.counter);
  buf.push_back((uint8_t)m.nbits);
  Random r;
  rc::deserialize(buf.begin(), buf.end(), r);
  draws(r, m, 10);
  COVER("wrap");
}
// serialize / restore after real histories
ENTRY(c01_reserialize) {
  Model m;
  Random r(symKey(m));
  int n = pick("splits", 0, 2);
  for (int i = 0; i < n; i++) split(r, m, pick("right", 0, 1) != 0);
  draws(r, m, pick("drawn", 0, 5));
  std::vector<uint8_t> buf;
  rc::serialize(r, std::back_inserter(buf));
  Random q(u64(99));
  for (int i = 0; i < 3; i++) q.next(); // a target with a history of its own
  auto it = rc::deserialize(buf.begin(), buf.end(), q);
  CHECK(it == buf.end(), "restoring consumes exactly what was written");
  Model m2 = m;
  draws(q, m, 6);
  draws(r, m2, 6);
  COVER("reserialize");
}
