// Symbolic interpreter for LLVM IR (C++ flavoured: exceptions, virtual calls, heap).
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>
#include <random>

namespace sx {
using namespace llvm;

struct Val { uint64_t c; Expr *e; };

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC, OK_EXN, OK_EXTERN, OK_DEAD };
static const char *objKindName[] = {"global", "stack", "heap", "function", "exception", "external", "freed"};

struct SymB { Expr *e; uint8_t k; };
struct Obj {
  int rc = 1; uint32_t size = 0; ObjKind kind = OK_HEAP; bool ro = false; bool tracked = false; ObjKind was = OK_HEAP;
  uint8_t *data = nullptr; SymB *sym = nullptr; uint32_t nsym = 0;
  std::string *name = nullptr;
  Obj() {}
  ~Obj() { free(data); free(sym); }
  Obj *clone() const {
    Obj *o = new Obj(); o->size = size; o->kind = kind; o->ro = ro; o->tracked = tracked; o->was = was; o->nsym = nsym; o->name = name;
    o->data = (uint8_t *)malloc(size + 1); memcpy(o->data, data, size);
    if (sym && nsym) { o->sym = (SymB *)malloc(sizeof(SymB) * (size + 1)); memcpy(o->sym, sym, sizeof(SymB) * size); }
    return o;
  }
};
static const unsigned CH = 64;
struct Chunk { int rc = 1; Obj *o[CH] = {}; };

struct Move { int dst, src; };
struct Edge { int pc = -1; std::vector<Move> moves; };

enum IOp : uint16_t {
  I_BIN, I_FNEG, I_ICMP, I_FCMP, I_SELECT, I_CAST, I_BITCAST, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH,
  I_UNREACHABLE, I_LANDINGPAD, I_RESUME, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_AGG, I_RMW, I_CMPXCHG, I_NOP, I_UNSUPPORTED
};

struct CallInfo;
struct Inst {
  IOp op = I_NOP; uint8_t sub = 0; uint8_t w = 0, sw = 0; uint16_t lanes = 1;
  int dst = -1, a = 0, b = 0, c = 0; int x = -1; int x2 = -1;
  bool hit = false;
  const Instruction *I = nullptr;
};

struct GepInfo { int64_t off; struct T { int op; unsigned w; int64_t scale; }; std::vector<T> terms; };
struct Leaf { unsigned bits; uint32_t off; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; };
struct ShufInfo { std::vector<int> mask; int na; };
struct AggInfo { std::vector<int> srcs; };
struct ArgInfo { int op; uint16_t n; uint64_t byval; unsigned w; };

struct Engine; struct State;
enum class BR { Done, Pushed, Jumped };
typedef BR (Engine::*Builtin)(State &, Inst &, CallInfo &, Val &);
struct CallInfo {
  Function *callee = nullptr; int calleeOp = 0; std::vector<ArgInfo> args; int retN = 0; std::vector<unsigned> retW;
  int normal = -1, unwind = -1; bool nounwind = false; Builtin bi = nullptr; unsigned intr = 0; std::string name; bool resolved = false;
  struct FuncInfo *fi = nullptr;
};

struct FuncInfo {
  Function *F = nullptr; std::string name; std::vector<Inst> code; int nslots = 0; std::vector<Edge> edges; std::vector<int> argSlots; std::vector<int> argN;
  bool decoded = false; bool executed = false; bool nounwind = false; Builtin bi = nullptr; uint64_t calls = 0;
};

struct Frame { FuncInfo *f; uint32_t base; uint32_t pc; std::vector<uint32_t> allocas; uint64_t freeOnRet = 0; Inst *callSite = nullptr; bool isDtor = false; };

struct ExnRec { uint64_t addr; uint64_t tinfo; uint64_t dtor; int refcnt; int handlers; uint64_t adjusted; uint64_t primary; bool rethrown; };

// a thread of the program under test that is not running at the moment
struct Thr { std::vector<Val> regs; std::vector<Frame> frames; std::vector<uint64_t> caught; int uncaught = 0; uint64_t pendingExn = 0, pendingSel = 0; bool done = false, skip = false; };

struct Input { std::string name; Expr *e; uint64_t c; unsigned w; };
struct Out { std::string tag; Val v; };

struct State {
  std::vector<Chunk *> tab; uint32_t nobj = 0;
  std::vector<Val> regs; std::vector<Frame> frames;
  std::vector<Expr *> path, facts /* implied by path; not sent to the solver */; std::shared_ptr<Model> model;
  std::vector<Input> inputs; std::vector<Out> outs; std::set<std::string> covers;
  std::vector<ExnRec> exns; std::vector<uint64_t> caught; int uncaught = 0;
  uint64_t pendingExn = 0; uint64_t pendingSel = 0;
  uint64_t steps = 0; int enumCount = 0; int64_t liveHeap = 0; uint64_t heapAllocs = 0; uint64_t failAlloc = 0; unsigned forks = 0; uint64_t symAsserts = 0;
  uint64_t heapLimit = 0;
  // threads: 0 is the main one; empty outside of a parallel section
  std::vector<Thr> thr; int cur = 0; unsigned preLeft = 0; uint32_t sharedLimit = 0; bool skip = false; uint64_t events = 0;

  State() {}
  State(const State &o) : tab(o.tab), nobj(o.nobj), regs(o.regs), frames(o.frames), path(o.path), facts(o.facts), model(o.model), inputs(o.inputs), outs(o.outs), covers(o.covers),
    exns(o.exns), caught(o.caught), uncaught(o.uncaught), pendingExn(o.pendingExn), pendingSel(o.pendingSel), steps(o.steps), enumCount(o.enumCount), liveHeap(o.liveHeap),
    heapAllocs(o.heapAllocs), failAlloc(o.failAlloc), forks(o.forks), symAsserts(o.symAsserts),
    thr(o.thr), cur(o.cur), preLeft(o.preLeft), sharedLimit(o.sharedLimit), skip(o.skip), events(o.events) { for (auto c : tab) c->rc++; }
  ~State() { for (auto c : tab) dropChunk(c); }
  static void dropObj(Obj *o) { if (o && --o->rc == 0) delete o; }
  static void dropChunk(Chunk *c) { if (--c->rc == 0) { for (auto o : c->o) dropObj(o); delete c; } }
  // truth of c by a syntactic match with a known condition: 1, 0, or -1
  int known(Expr *c, Expr *nc) const {
    for (size_t i = path.size(); i-- > 0;) { if (path[i] == c) return 1; if (path[i] == nc) return 0; }
    for (size_t i = facts.size(); i-- > 0;) { if (facts[i] == c) return 1; if (facts[i] == nc) return 0; }
    return -1;
  }
  Obj *get(uint32_t id) const { return id < nobj ? tab[id / CH]->o[id % CH] : nullptr; }
  Chunk *wchunk(uint32_t ci) {
    Chunk *c = tab[ci];
    if (c->rc > 1) { Chunk *n = new Chunk(); for (unsigned i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; tab[ci] = n; c = n; }
    return c;
  }
  Obj *wr(uint32_t id) {
    Chunk *c = wchunk(id / CH); Obj *&o = c->o[id % CH];
    if (o->rc > 1) { Obj *n = o->clone(); o->rc--; o = n; }
    return o;
  }
  uint32_t alloc(uint32_t size, ObjKind k, int fill) {
    uint32_t id = nobj++;
    if (id / CH >= tab.size()) tab.push_back(new Chunk());
    Chunk *c = wchunk(id / CH);
    Obj *o = new Obj(); o->size = size; o->kind = k; o->data = (uint8_t *)malloc(size + 1); memset(o->data, fill, size);
    c->o[id % CH] = o;
    return id;
  }
  void kill(uint32_t id) {
    static std::unordered_map<int, Obj *> dead;
    Chunk *c = wchunk(id / CH); Obj *&o = c->o[id % CH];
    auto &d = dead[o->kind];
    if (!d) { d = new Obj(); d->kind = OK_DEAD; d->was = o->kind; d->data = (uint8_t *)malloc(1); }
    dropObj(o); d->rc++; o = d;
  }
};

struct PathEnd { };
struct Violation { std::string msg, kind, where; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::pair<std::string, uint64_t>> outs; };

struct Engine {
  Module &M; const DataLayout &DL; Ctx cx; std::unique_ptr<Solver> sol; Evaluator ev;
  std::unordered_map<const Function *, FuncInfo *> finfo; std::unordered_map<const GlobalValue *, uint64_t> gaddr; std::unordered_map<uint32_t, Function *> funcByObj;
  std::unordered_map<std::string, Builtin> builtins;
  std::vector<Val> pool; std::unordered_map<const Constant *, int> poolIdx;
  std::deque<CallInfo> calls; std::deque<GepInfo> geps; std::deque<std::vector<Leaf>> leafs; std::deque<SwitchInfo> switches; std::deque<ShufInfo> shufs; std::deque<AggInfo> aggs;
  std::vector<State *> work;
  std::map<std::string, int64_t> params;
  // options
  uint64_t maxSteps = 50000000, maxPaths = 1000000; double deadline = 0; unsigned maxEnum = 600; unsigned maxDepth = 3000; unsigned maxViol = 4; unsigned nWitness = 6; uint64_t seed = 1; uint64_t maxMemObjs = 30000000;
  bool verbose = false; unsigned long memLimitMB = 5000;
  // results
  uint64_t paths = 0, killed = 0, forks = 0, steps = 0, asserts = 0, symAsserts = 0, assumeKills = 0, states = 1;
  std::vector<Violation> viols; std::set<std::string> violMsgs; std::set<std::string> incomplete; std::set<std::string> covers; std::map<std::string, uint64_t> coverCount; std::map<std::string,uint64_t> forkSites;
  struct Witness { std::vector<std::pair<std::string, uint64_t>> inputs, outs; };
  std::vector<Witness> witnesses; std::mt19937_64 rng;
  std::map<std::string, int64_t> usedParams;
  std::string errorMsg;
  FuncInfo *randNext = nullptr;

  Engine(Module &m, unsigned tmo) : M(m), DL(m.getDataLayout()), sol(new Solver(cx, tmo)) { initBuiltins(); }

  // ---- decode
  void flat(Type *T, uint64_t off, std::vector<Leaf> &out);
  unsigned slots(Type *T) { std::vector<Leaf> l; flat(T, 0, l); return l.size(); }
  unsigned bitsOf(Type *T);
  FuncInfo *info(Function *F);
  void decode(FuncInfo *fi);
  uint64_t constVal(const Constant *C);
  void constLeaves(const Constant *C, std::vector<Val> &out);
  int constPool(const Constant *C);
  void writeConst(Obj *o, uint64_t off, const Constant *C);
  void initGlobals(State &s);
  Builtin findBuiltin(const std::string &n);

  // ---- exec
  [[noreturn]] void endPath(State &s, const char *why);
  [[noreturn]] void violation(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m = nullptr);
  void record(State &s, const std::string &kind, const std::string &msg, const Model &m);
  [[noreturn]] void internalError(State &s, const std::string &msg);
  void step(State &s);
  void run(State *s);
  void explore(State *init);
  void finish(State &s);
  std::string where(State &s, int maxFrames = 6);

  Val get(State &s, int op, int k = 0) { return op >= 0 ? s.regs[s.frames.back().base + op + k] : pool[-op - 1 + k]; }
  void set(State &s, int slot, Val v) { s.regs[s.frames.back().base + slot] = v; }
  Expr *E(Val v, unsigned w) { return v.e ? v.e : cx.cst(v.c, w); }
  Val fromE(Expr *e) { return e->op == CONST ? Val{e->val, nullptr} : Val{0, e}; }

  bool branch(State &s, Expr *c);
  Res feasible(State &s, Expr *c, std::shared_ptr<Model> *m) { return sol->check(s.path, c, *s.model, m); }
  void addC(State &s, Expr *c);
  uint64_t concretize(State &s, Val v, unsigned w, const char *why);
  State *fork(State &s);

  // memory
  Val loadBytes(State &s, Obj *o, uint32_t off, unsigned bits);
  void storeBytes(State &s, Obj *o, uint32_t off, Val v, unsigned bits);
  Obj *checkAccess(State &s, uint64_t addr, uint64_t n, bool write, const char *what);
  Val load(State &s, Val addr, unsigned bits);
  void store(State &s, Val addr, Val v, unsigned bits);
  std::unordered_map<Expr *, std::pair<Expr *, std::shared_ptr<std::vector<uint64_t>>>> tables; // constant table lookups: index term and results
  uint64_t resolveObj(State &s, Expr *addr); // returns object base for symbolic address
  Expr *byteE(Obj *o, uint32_t off);
  uint64_t heapAlloc(State &s, uint64_t n, ObjKind k = OK_HEAP, int fill = 0xBE);
  void heapFree(State &s, uint64_t addr, const char *what);
  std::string cstr(State &s, uint64_t addr);

  // threads: a switch may happen before any access to shared memory
  void switchTo(State &s, int u);
  void threadDone(State &s);
  void schedule(State &s);
  void schedPoint(State &s, Val addr) {
    if (s.cur == 0 || addr.e) return;
    uint32_t id = addr.c >> 32; Obj *o = id < s.sharedLimit ? s.get(id) : nullptr;
    if (o && !o->ro && (o->kind == OK_HEAP || o->kind == OK_GLOBAL || (o->kind == OK_DEAD && o->was == OK_HEAP))) schedule(s);
  }

  // calls
  void doCall(State &s, Inst &in, CallInfo &ci);
  void pushFrame(State &s, FuncInfo *fi, Inst *site);
  void doRet(State &s, Inst *in);
  void popFrame(State &s);
  void jump(State &s, int edge);
  void afterCall(State &s, Inst &in, CallInfo &ci);
  BR intrinsic(State &s, Inst &in, CallInfo &ci, Val &ret);
  uint64_t argC(State &s, CallInfo &ci, unsigned i) { return concretize(s, get(s, ci.args[i].op), ci.args[i].w, "argument"); }
  Val arg(State &s, CallInfo &ci, unsigned i) { return get(s, ci.args[i].op); }
  void callDtor(State &s, uint64_t fn, uint64_t obj, bool freeExn);

  // exceptions
  ExnRec *exn(State &s, uint64_t a) { for (auto &e : s.exns) if (e.addr == a) return &e; return nullptr; }
  bool typeMatches(State &s, uint64_t thrown, uint64_t want, uint64_t &adj, int depth = 0);
  void unwind(State &s, uint64_t exnAddr);
  void exnRelease(State &s, uint64_t addr);
  uint64_t primaryOf(State &s, uint64_t a) { auto r = exn(s, a); return r && r->primary ? r->primary : a; }
  std::string tinfoName(State &s, uint64_t t);
  void throwOOB(State &s);

  void initBuiltins();
#define BI(n) BR n(State &s, Inst &in, CallInfo &ci, Val &ret)
  BI(bi_new); BI(bi_delete); BI(bi_calloc); BI(bi_realloc); BI(bi_memcpy); BI(bi_memset); BI(bi_memcmp); BI(bi_bcmp); BI(bi_memchr); BI(bi_strlen); BI(bi_strcmp);
  BI(bi_nop); BI(bi_zero); BI(bi_one); BI(bi_guard_acquire); BI(bi_guard_release); BI(bi_abort); BI(bi_assert_fail); BI(bi_terminate); BI(bi_pure); BI(bi_exit);
  BI(bi_cxa_alloc); BI(bi_cxa_free); BI(bi_cxa_throw); BI(bi_cxa_begin); BI(bi_cxa_end); BI(bi_cxa_rethrow); BI(bi_cxa_getptr); BI(bi_cxa_initprimary);
  BI(bi_curexc); BI(bi_rethrowexc); BI(bi_eptr_ctor); BI(bi_eptr_addref); BI(bi_eptr_release); BI(bi_uncaught); BI(bi_uncaughts);
  BI(bi_sym_make); BI(bi_sym_assume); BI(bi_sym_assert); BI(bi_sym_lemma); BI(bi_sym_opaque); BI(bi_sym_out); BI(bi_sym_cover); BI(bi_sym_param); BI(bi_sym_live); BI(bi_sym_conc); BI(bi_sym_issym); BI(bi_sym_fail_alloc); BI(bi_sym_allocs); BI(bi_sym_note); BI(bi_sym_ite);
  BI(bi_snprintf); BI(bi_sym_spawn); BI(bi_sym_join); BI(bi_demangle); BI(bi_nothrow_new); BI(bi_fround); BI(bi_fabs); BI(bi_tolower); BI(bi_unexpected); BI(bi_callmain); BI(bi_fmath); BI(bi_dyncast);
#undef BI
};
} // namespace sx
