// C24: dynamically scoped settings restore exactly, whatever the exit path.
#include <rapidcheck.h>
#include <algorithm>
#include <memory>
#include "sym.h"
#include "common.h"
#include "rapidcheck/detail/ImplicitParam.h"
using namespace rc;
using namespace rc::detail;
namespace {
int defaultsA = 0, defaultsB = 0;
struct A { // a plain value
  using ValueType = int;
  static int defaultValue() { return 1000 + defaultsA++; }
};
struct B { // a value with a lifetime
  using ValueType = std::shared_ptr<int>;
  static std::shared_ptr<int> defaultValue() { return std::make_shared<int>(2000 + defaultsB++); }
};
// the environment as a list of frames, innermost last
struct Frame {
  int kind; // 0: binding of A, 1: binding of B, 2: barrier
  int value;
  bool has[2] = {false, false};
  int defaults[2] = {0, 0};
};
std::vector<Frame> frames;
// the cell that a read must see
int &cell(int k) {
  for (size_t i = frames.size(); i-- > 0;) {
    Frame &f = frames[i];
    if (f.kind == k) return f.value;
    if (f.kind == 2) {
      if (!f.has[k]) { f.has[k] = true; f.defaults[k] = k == 0 ? 1000 + defaultsA : 2000 + defaultsB; }
      return f.defaults[k];
    }
  }
  static int none;
  return none;
}
struct Popper { ~Popper() { frames.pop_back(); } };
int readA() { return ImplicitParam<A>::value(); }
int readB() { return *ImplicitParam<B>::value(); }
void look(int k) {
  int want = cell(k); // before the read, which may create a default
  CHECK((k == 0 ? readA() : readB()) == want, "a read sees the innermost visible binding");
}
int budget = 0;
void run() {
  while (budget > 0) {
    budget--;
    switch (pick("op", 0, 7)) {
    case 0: return;
    case 1: throw 1;
    case 2: try { run(); } catch (int) {} break;
    case 3: {
      int v = sym<int>("a");
      frames.push_back(Frame{0, v});
      Popper p;
      ImplicitParam<A> let(v);
      run();
      break;
    }
    case 4: {
      int v = sym<int>("b");
      frames.push_back(Frame{1, v});
      Popper p;
      ImplicitParam<B> let(std::make_shared<int>(v));
      run();
      break;
    }
    case 5: {
      frames.push_back(Frame{2, 0});
      Popper p;
      ImplicitScope scope;
      run();
      break;
    }
    case 6: {
      int k = (int)pick("param", 0, 1);
      look(k);
      COVER("read");
      break;
    }
    default: { // write through the binding
      int k = (int)pick("param", 0, 1), v = sym<int>("w");
      look(k);
      cell(k) = v;
      if (k == 0) ImplicitParam<A>::value() = v;
      else ImplicitParam<B>::value() = std::make_shared<int>(v);
      look(k);
      COVER("write");
      break;
    }
    }
  }
  look(0);
  look(1);
  if (!frames.empty() && pick("leave", 0, 1)) throw 2;
}
} // namespace
ENTRY(c24_scopes) {
  budget = (int)sym_param("n", 4);
  bool barrier = pick("barrier", 0, 1) != 0;
  int v = sym<int>("outer");
  auto object = std::make_shared<int>(v);
  std::weak_ptr<int> weak = object;
  {
    ImplicitScope base;
    frames.push_back(Frame{2, 0});
    ImplicitParam<A> a(v);
    frames.push_back(Frame{0, v});
    ImplicitParam<B> b(object);
    object.reset();
    frames.push_back(Frame{1, v});
    bool inside = true;
    try {
      if (barrier) {
        ImplicitScope scope;
        frames.push_back(Frame{2, 0});
        Popper p;
        run();
      } else run();
    } catch (int) {}
    CHECK(frames.size() == 3, "harness");
    look(0);
    look(1);
    (void)inside;
    frames.resize(1);
  }
  CHECK(weak.expired(), "the last value of a binding is destroyed with it");
  if (0) { COVER("read"); COVER("write"); }
}
// without any scope the default lasts
ENTRY(c24_default) {
  int first = readA();
  CHECK(first == 1000 && readA() == 1000 && defaultsA == 1, "the default is created once");
  int v = sym<int>("v"), w = sym<int>("w");
  {
    ImplicitParam<A> a(v);
    CHECK(readA() == v, "a binding hides the default");
    ImplicitParam<A>::value() = w;
    CHECK(readA() == w, "a value written through a binding is seen");
    {
      ImplicitScope s;
      if (pick("read", 0, 1)) CHECK(readA() == 1001, "a barrier hides outer bindings");
    }
    CHECK(readA() == w, "a barrier exposes outer bindings unchanged");
  }
  CHECK(readA() == 1000, "the default is restored");
  COVER("default");
}
