// C30: copies of the same generator or shrink tree may be made and destroyed
// by several threads at the same time.
#include <rapidcheck.h>
#include <new>
#include <utility>
#include "sym.h"
#include "common.h"
using namespace rc;
namespace {
int live[2];  // user objects inside the shared values
int dead[2];  // how often each was destroyed
struct Part {
  int id; bool owner;
  explicit Part(int i) : id(i), owner(true) { live[id]++; }
  Part(const Part &o) : id(o.id), owner(true) { live[id]++; }
  Part(Part &&o) noexcept : id(o.id), owner(o.owner) { o.owner = false; }
  ~Part() { if (owner) { live[id]--; dead[id]++; } }
};
struct Tree {
  Part part; int v;
  Tree(int id, int x) : part(id), v(x) {}
  int value() const { return v; }
  Seq<Shrinkable<int>> shrinks() const { return Seq<Shrinkable<int>>(); }
};
struct Make {
  Part part; int v;
  Make(int id, int x) : part(id), v(x) {}
  Shrinkable<int> operator()(const Random &, int) const { return shrinkable::just(int(v)); }
};
// one thread: a copy of its own, and the shared values it may copy from
template <typename H> struct Thread {
  union { H own; };
  const H *shared;
  int prog; bool ok = true; int want[2];
  Thread() {}
  ~Thread() {}
};
int use(const Shrinkable<int> &s) { return s.value(); }
int use(const Gen<int> &g) { return g(Random(), 0).value(); }
template <typename H> void run(void *p) {
  auto &t = *static_cast<Thread<H> *>(p);
  switch (t.prog) {
  case 0: break;
  case 1: { H c(t.own); break; }
  case 2: { H c(*t.shared); t.ok = use(c) == t.want[0]; break; }
  case 3: t.own = *t.shared; break;
  case 4: { H c(std::move(t.own)); t.own = c; break; }
  case 5: t.ok = use(t.own) == t.want[1]; break;
  }
  t.own.~H();
}
// `holder`: 0 the main thread keeps both values, 1 only the first one (which
// the threads may copy)
template <typename H, typename F> void scenario(F make, int nthreads, uint64_t switches, int progs) {
  int64_t heap = sym_live();
  for (int i = 0; i < 2; i++) live[i] = dead[i] = 0;
  int x = sym<int>("x"), y = sym<int>("y");
  bool same = pick("same", 0, 1); // threads own copies of the shared value, or of another
  Thread<H> t[3];
  {
    H shared(make(0, x));
    {
      H other(make(1, y));
      for (int i = 0; i < nthreads; i++) {
        new (&t[i].own) H(same ? shared : other);
        t[i].shared = &shared;
        t[i].want[0] = x;
        t[i].want[1] = same ? x : y;
        t[i].prog = (int)pick("prog", 0, progs - 1);
        if (i > 0) ASSUME(t[i].prog >= t[i - 1].prog); // threads are alike
      }
    }
    CHECK(live[0] == 1, "a value is shared, not copied");
    CHECK(live[1] == (same ? 0 : 1), "a value goes away exactly with its last copy");
    for (int i = 0; i < nthreads; i++) sym_spawn(&run<H>, &t[i]);
    sym_join(switches);
    CHECK(both(live[0] == 1, dead[0] == 0), "a value is not destroyed while a copy is alive");
    CHECK(both(live[1] == 0, dead[1] == 1), "a value is destroyed exactly once, with its last copy");
    for (int i = 0; i < nthreads; i++) CHECK(t[i].ok, "every thread sees the value");
    CHECK(use(shared) == x, "the remaining copy still has the value");
  }
  CHECK(both(live[0] == 0, dead[0] == 1), "a value is destroyed exactly once, with its last copy");
  CHECK(sym_live() == heap, "all memory is released");
  sym_out("x", x);
}
Shrinkable<int> makeTree(int id, int v) { return makeShrinkable<Tree>(id, v); }
Gen<int> makeGen(int id, int v) { return Gen<int>(Make(id, v)); }
} // namespace
ENTRY(c30_shrinkable) {
  scenario<Shrinkable<int>>(makeTree, 2, sym_param("switches", 2), 6);
  COVER("end");
}
ENTRY(c30_gen) {
  scenario<Gen<int>>(makeGen, 2, sym_param("switches", 2), 5);
  COVER("end");
}
ENTRY(c30_three) {
  if (pick("kind", 0, 1)) scenario<Shrinkable<int>>(makeTree, 3, sym_param("switches", 1), 4);
  else scenario<Gen<int>>(makeGen, 3, sym_param("switches", 1), 4);
  COVER("end");
}
