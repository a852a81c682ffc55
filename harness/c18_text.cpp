// C18: generated text contains no terminator and only shrinks to simpler text.
#include <rapidcheck.h>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
template <typename T> bool nul(T c) { return c == (T)0; }
// what is tried below one character, worked out once per value
template <typename T> std::vector<T> simpler(T c) { return h::take(shrink::character<T>(c)); }
template <typename S> void noNul(const S &s, const char *msg) {
  unsigned z = 0;
  for (auto c : s) z |= (unsigned)nul(c);
  CHECK(!z, msg);
}
template <typename S> void checkShrinks(const Shrinkable<S> &sh, int depth) {
  using T = typename S::value_type;
  S s = sh.value();
  std::vector<std::vector<T>> lists;
  for (auto c : s) lists.push_back(simpler<T>(c));
  auto seq = sh.shrinks();
  int count = 0;
  std::vector<S> all;
  for (;;) {
    auto x = seq.next();
    if (!x) break;
    if (++count > 100) { CHECK(false, "the list of shrinks is finite"); return; }
    S t = x->value();
    noNul(t, "no shrink contains the terminator");
    CHECK(t.size() <= s.size(), "shrinks are never longer");
    if (t.size() < s.size()) {
      // one run removed
      unsigned any = 0;
      size_t gap = s.size() - t.size();
      for (size_t at = 0; at + gap <= s.size(); at++) {
        unsigned ok = 1;
        for (size_t i = 0; i < t.size(); i++) ok &= (unsigned)(t[i] == s[i < at ? i : i + gap]);
        any |= ok;
      }
      CHECK(any, "a shorter shrink is the text without one run of characters");
    } else if (t.size() == s.size()) {
      unsigned changed = 0, legal = 1;
      for (size_t i = 0; i < s.size(); i++) {
        unsigned c = (unsigned)(t[i] != s[i]), in = 0;
        for (T y : lists[i]) in |= (unsigned)(t[i] == y);
        changed += c;
        legal &= (unsigned)implies(c, in);
      }
      CHECK(both(changed == 1, legal), "a shrink of equal length is simpler in exactly one character");
    }
    all.push_back(t);
    if (depth > 1) checkShrinks(*x, depth - 1);
  }
  // nothing is missing: every removal of one character, every simpler character
  for (size_t i = 0; i < s.size(); i++) {
    unsigned any = 0;
    for (auto &t : all) {
      if (t.size() + 1 != s.size()) continue;
      unsigned ok = 1;
      for (size_t k = 0; k < t.size(); k++) ok &= (unsigned)(t[k] == s[k < i ? k : k + 1]);
      any |= ok;
    }
    CHECK(any, "removing any one character is offered");
    for (T y : lists[i]) {
      unsigned in = 0;
      for (auto &t : all) {
        if (t.size() != s.size()) continue;
        unsigned ok = 1;
        for (size_t k = 0; k < t.size(); k++) ok &= (unsigned)(t[k] == (k == i ? y : s[k]));
        in |= ok;
      }
      CHECK(in, "every simpler character is offered");
    }
  }
}
template <typename S> void value(int maxSize) {
  int size = (int)pick("size", 0, maxSize);
  Gen<S> g = size == 2 && pick("arbitrary", 0, 1) ? gen::arbitrary<S>() : gen::string<S>();
  auto sh = g(h::rnd(1), size);
  S s = sh.value();
  CHECK(s.size() <= (size_t)size, "at most as many characters as the size");
  noNul(s, "generated text contains no terminator");
  if (s.size() == (size_t)size) COVER("full");
  if (s.empty()) COVER("empty");
}
template <typename S> void shrinks(int maxSize) {
  int size = (int)pick("size", 0, maxSize);
  auto sh = gen::string<S>()(h::rnd(1), size);
  S s = sh.value();
  noNul(s, "generated text contains no terminator");
  checkShrinks(sh, s.size() <= (size_t)sym_param("deep", 1) ? 2 : 1);
  COVER("shrinks");
}
template <typename T> void tree(const Shrinkable<T> &s, int depth) {
  T v = s.value();
  CHECK(!nul(v), "no shrink is the terminator");
  auto want = simpler<T>(v);
  auto got = h::shrinkValues(s);
  CHECK(got.size() == want.size(), "a character has the shrinks of its value");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) CHECK(got[i] == want[i], "a character has the shrinks of its value");
  if (depth == 0) return;
  auto seq = s.shrinks();
  for (;;) {
    auto x = seq.next();
    if (!x) return;
    tree(*x, depth - 1);
  }
}
template <typename T> void character() {
  int size = (int)pick("size", 0, 2) * 50;
  auto s = gen::character<T>()(h::rnd(1), size);
  CHECK(!nul(s.value()), "generated characters are not the terminator");
  tree(s, (int)sym_param("depth", 1));
  COVER("character");
}
} // namespace
ENTRY(c18_string) { value<std::string>((int)sym_param("n", 3)); if (0) { COVER("full"); COVER("empty"); } }
ENTRY(c18_wstring) { value<std::wstring>((int)sym_param("n", 3)); if (0) { COVER("full"); COVER("empty"); } }
ENTRY(c18_string_shrinks) { shrinks<std::string>((int)sym_param("n", 2)); if (0) COVER("shrinks"); }
ENTRY(c18_wstring_shrinks) { shrinks<std::wstring>((int)sym_param("n", 1)); if (0) COVER("shrinks"); }
ENTRY(c18_char) { character<char>(); if (0) COVER("character"); }
ENTRY(c18_wchar) { character<wchar_t>(); if (0) COVER("character"); }
