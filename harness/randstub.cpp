// Replaces the words of the random stream by unconstrained symbolic values: the
// word for each (key, split path, counter) is one symbolic input, the same every
// time that position is read. The real Random still computes the position.
#include "sym.h"
#include <rapidcheck/Random.h>
#ifdef SYM_NATIVE
// Random.o's next is renamed to this symbol with objcopy
extern "C" uint64_t rc_real_random_next(rc::Random *);
#else
extern "C" uint64_t rc_real_random_next(rc::Random *);
#endif
extern "C" {
int64_t sym_words = -1; // symbolic words still available, -1: read parameter
uint64_t sym_words_used = 0;
}
static const unsigned N = 8192;
static uint64_t keys[N], vals_[N];
static bool used[N];
extern "C" uint64_t sym_random_next(rc::Random *self) {
  uint64_t w = rc_real_random_next(self);
  if (sym_words < 0) sym_words = sym_param("words", 64);
  unsigned h = (unsigned)(w & (N - 1));
  for (;;) {
    if (!used[h]) break;
    if (keys[h] == w) return vals_[h];
    h = (h + 1) & (N - 1);
  }
  used[h] = true;
  keys[h] = w;
  if (sym_words == 0) return vals_[h] = w;
  sym_words--;
  sym_words_used++;
  return vals_[h] = sym_make("rnd", 64);
}
#ifdef SYM_NATIVE
namespace rc { Random::Number Random::next() { return sym_random_next(this); } }
#endif
