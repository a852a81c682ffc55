// C02: bit streams hand out every source bit exactly once, in order.
#include "sym.h"
#include <rapidcheck.h>
#include <rapidcheck/detail/BitStream.h>
using namespace rc::detail;
namespace {
struct Src {
  uint64_t w[8];
  unsigned n = 0;
  uint64_t next() { CHECK(n < 8, "source read past the words needed"); return w[n++]; }
};
// reference: bits [pos, pos+n) of the concatenated words
uint64_t take(const uint64_t *w, unsigned pos, unsigned n) {
  if (n == 0) return 0;
  unsigned i = pos / 64, o = pos % 64;
  uint64_t v = w[i] >> o;
  if (o != 0 && o + n > 64) v |= w[i + 1] << (64 - o);
  if (n < 64) v &= (uint64_t(1) << n) - 1;
  return v;
}
uint64_t sext(uint64_t v, unsigned n) {
  if (n == 0 || n >= 64) return v;
  return (uint64_t)((int64_t)(v << (64 - n)) >> (64 - n));
}
template <typename T> void draw(BitStream<Src &> &bs, Src &src, unsigned &pos, int req) {
  unsigned width = numBits<T>();
  if (std::is_same<T, bool>::value) width = 1;
  unsigned n = (unsigned)req > width ? width : (unsigned)req;
  T v = bs.template next<T>(req);
  uint64_t want = take(src.w, pos, n);
  pos += n;
  if (std::is_signed<T>::value) want = sext(want, n);
  CHECK(v == (T)want, "drawn value is the next n source bits");
  CHECK(src.n == (pos + 63) / 64, "a word is fetched only when the previous one is used up");
  sym_out("v", (uint64_t)v);
}
void drawBool(BitStream<Src &> &bs, Src &src, unsigned &pos) {
  bool v = bs.template next<bool>();
  uint64_t want = take(src.w, pos, 1);
  pos += 1;
  CHECK(v == (want != 0), "drawn bool is the next source bit");
  CHECK(src.n == (pos + 63) / 64, "a bool takes one bit");
}
template <typename T> void drawAny(int kind, BitStream<Src &> &bs, Src &src, unsigned &pos, int n) {
  draw<T>(bs, src, pos, n);
}
void dispatch(int t, BitStream<Src &> &bs, Src &src, unsigned &pos, int n) {
  switch (t) {
  case 0: draw<uint8_t>(bs, src, pos, n); break;
  case 1: draw<int8_t>(bs, src, pos, n); break;
  case 2: draw<uint16_t>(bs, src, pos, n); break;
  case 3: draw<int16_t>(bs, src, pos, n); break;
  case 4: draw<uint32_t>(bs, src, pos, n); break;
  case 5: draw<int32_t>(bs, src, pos, n); break;
  case 6: draw<uint64_t>(bs, src, pos, n); break;
  case 7: draw<int64_t>(bs, src, pos, n); break;
  default: drawBool(bs, src, pos); break;
  }
}
} // namespace
// one draw of every width at every bit offset inside the word
ENTRY(c02_any_offset) {
  Src src;
  for (auto &w : src.w) w = sym<uint64_t>("word");
  auto bs = bitStreamOf(src);
  unsigned pos = 0;
  int off = pick("off", 0, 64);
  int t = pick("type", 0, 8);
  int n = pick("bits", 0, 66);
  draw<uint64_t>(bs, src, pos, off);
  dispatch(t, bs, src, pos, n);
  draw<uint16_t>(bs, src, pos, 5); // position stays in step afterwards
  COVER("any_offset");
}
// a sequence of k draws of arbitrary widths
ENTRY(c02_sequence) {
  Src src;
  for (auto &w : src.w) w = sym<uint64_t>("word");
  auto bs = bitStreamOf(src);
  unsigned pos = 0;
  static const int ns[] = {0, 1, 7, 31, 33, 63, 64};
  int k = (int)sym_param("k", 3);
  for (int i = 0; i < k; i++) dispatch(pick("type", 4, 8), bs, src, pos, ns[pick("bits", 0, 6)]);
  COVER("sequence");
}
// size scaled draws
template <typename T> static void sized() {
  Src src;
  for (auto &w : src.w) w = sym<uint64_t>("word");
  auto bs = bitStreamOf(src);
  static const int huge[] = {1000, 33554431, 33554432, 67108864, 268435455, 268435456, 1073741824, 2147483647};
  int si = pick("size", 0, 208);
  int size = si <= 200 ? si : huge[si - 201];
  unsigned width = numBits<T>();
  uint64_t n = ((uint64_t)size * width * 2 + 100) / 200; // round half up of size*width/100
  if (n > width) n = width;
  T v = bs.template nextWithSize<T>(size);
  uint64_t want = take(src.w, 0, (unsigned)n);
  if (std::is_signed<T>::value) want = sext(want, (unsigned)n);
  CHECK(v == (T)want, "size scaled draw uses round(size*width/100) bits");
  CHECK(src.n == (n ? 1u : 0u), "size scaled draw fetches what it needs");
  COVER("sized");
}
ENTRY(c02_sized) {
  switch (pick("type", 0, 7)) {
  case 0: sized<uint8_t>(); break;
  case 1: sized<int8_t>(); break;
  case 2: sized<uint16_t>(); break;
  case 3: sized<int16_t>(); break;
  case 4: sized<uint32_t>(); break;
  case 5: sized<int32_t>(); break;
  case 6: sized<uint64_t>(); break;
  case 7: sized<int64_t>(); break;
  }
}
// a copied stream continues independently, a referenced source is shared
ENTRY(c02_copy) {
  Src src;
  for (auto &w : src.w) w = sym<uint64_t>("word");
  const Src &csrc = src;
  auto bs = bitStreamOf(csrc);
  int n = pick("n", 0, 64), m = pick("m", 1, 64);
  (void)bs.next<uint64_t>(n);
  auto bs2 = bs;
  uint64_t a = bs.next<uint64_t>(m), b = bs2.next<uint64_t>(m);
  CHECK(a == b, "copies of a stream agree");
  CHECK(a == take(src.w, n, m), "a copied stream continues where the original was");
  CHECK(src.n == 0, "a stream over a copied source leaves the original alone");
  COVER("copy");
}
