#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <pthread.h>
#include <sys/resource.h>
using namespace sx;

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
struct Args { std::string bc, entry, out; std::map<std::string, int64_t> params; double tl = 300; unsigned qt = 20000; unsigned wit = 6; uint64_t seed = 1; uint64_t maxSteps = 20000000, maxPaths = 10000000; bool verbose = false; std::string dump, prefix = "/repo/"; unsigned maxEnum = 600; unsigned mem = 5000; };
static Args A; static int rc = 0;

static void *mainThread(void *) {
  double t0 = nowS();
  llvm::LLVMContext C; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(A.bc, err, C);
  if (!M) { err.print("rcsym", llvm::errs()); rc = 3; return nullptr; }
  if (auto *F = M->getFunction("sym_random_next")) {
    // Redirect the random source to the harness stub; the stub itself calls the real one.
    auto *R = M->getFunction("_ZN2rc6Random4nextEv"); auto *D = M->getFunction("rc_real_random_next");
    if (R && !F->isDeclaration()) {
      R->setName("_ZN2rc6Random4nextEv.real");
      R->replaceAllUsesWith(F);
      if (D) D->replaceAllUsesWith(R);
    }
  }
  Engine E(*M, A.qt);
  E.params = A.params; E.verbose = A.verbose; E.nWitness = A.wit; E.rng.seed(A.seed); E.maxSteps = A.maxSteps; E.maxPaths = A.maxPaths; E.maxEnum = A.maxEnum; E.memLimitMB = A.mem;
  E.deadline = t0 + A.tl;
  if (!A.dump.empty()) E.sol->dump = fopen(A.dump.c_str(), "w");
  auto *F = M->getFunction(A.entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", A.entry.c_str()); rc = 3; return nullptr; }
  State *s = new State(); s->model = std::make_shared<Model>();
  E.initGlobals(*s);
  double tInit = nowS();
  std::string initErr;
  try {
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<llvm::ConstantArray>(GC->getInitializer())) {
      std::vector<std::pair<uint64_t, llvm::Function *>> ct;
      for (auto &op : CA->operands()) { auto *CS = cast<llvm::ConstantStruct>(op); if (auto *f = dyn_cast<llvm::Function>(CS->getOperand(1)->stripPointerCasts())) ct.push_back({cast<llvm::ConstantInt>(CS->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(ct.begin(), ct.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : ct) { E.pushFrame(*s, E.info(c.second), nullptr); while (!s->frames.empty()) E.step(*s); }
    }
  } catch (PathEnd &) { initErr = "static initialisation failed"; for (auto &i : E.incomplete) initErr += "; " + i; for (auto &v : E.viols) initErr += "; " + v.msg + " @ " + v.where; }
  if (!initErr.empty() || !E.work.empty()) { fprintf(stderr, "%s\n", initErr.c_str()); rc = 3; return nullptr; }
  s->liveHeap = 0; s->heapAllocs = 0; s->steps = 0;
  double tRun = nowS();
  E.pushFrame(*s, E.info(F), nullptr);
  E.explore(s);
  double t1 = nowS();
  // report
  std::string o = "{\n";
  auto kv = [&](const std::string &k, const std::string &v) { o += "  " + jstr(k) + ": " + v + ",\n"; };
  kv("entry", jstr(A.entry)); kv("paths", std::to_string(E.paths)); kv("ended_early", std::to_string(E.killed)); kv("assume_kills", std::to_string(E.assumeKills)); kv("states", std::to_string(E.states)); kv("forks", std::to_string(E.forks)); kv("steps", std::to_string(E.steps));
  kv("asserts", std::to_string(E.asserts)); kv("symbolic_asserts", std::to_string(E.symAsserts));
  auto &st = E.sol->st;
  kv("queries", std::to_string(st.queries)); kv("z3_queries", std::to_string(st.z3)); kv("cache_hits", std::to_string(st.cacheHits)); kv("model_hits", std::to_string(st.modelHits)); kv("sat", std::to_string(st.sat)); kv("unsat", std::to_string(st.unsat)); kv("unknown", std::to_string(st.unknown));
  char b[64]; snprintf(b, 64, "%.3f", st.time); kv("solver_s", b); snprintf(b, 64, "%.3f", st.maxTime); kv("solver_max_s", b); snprintf(b, 64, "%.3f", t1 - tRun); kv("explore_s", b); snprintf(b, 64, "%.3f", tRun - t0); kv("load_s", b);
  kv("exprs", std::to_string(E.cx.all.size())); kv("vars", std::to_string(E.cx.varNames.size()));
  auto arr = [&](const std::set<std::string> &v) { std::string r = "["; for (auto &x : v) r += (r.size() > 1 ? ", " : "") + jstr(x); return r + "]"; };
  kv("incomplete", arr(E.incomplete)); kv("covers", arr(E.covers));
  { std::string r = "{"; for (auto &p : E.usedParams) r += (r.size() > 1 ? ", " : "") + jstr(p.first) + ": " + std::to_string(p.second); kv("params", r + "}"); }
  std::map<std::string, std::set<unsigned>> lines; std::map<std::string, uint64_t> fns;
  for (auto &p : E.finfo) { auto *fi = p.second; if (!fi->executed) continue;
    for (auto &in : fi->code) if (in.hit && in.I) for (const llvm::DILocation *dl = in.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
      std::string fn = dl->getFilename().str(); if (fn.rfind(A.prefix, 0) == 0) lines[fn.substr(A.prefix.size())].insert(dl->getLine());
      if (fn.rfind(A.prefix, 0) == 0) if (auto *sp = dl->getScope()->getSubprogram()) { std::string n = sp->getName().str(); for (auto *sc = sp->getScope(); sc; sc = sc->getScope()) { if (sc->getName().empty()) continue; if (isa<llvm::DIFile>(sc) || isa<llvm::DICompileUnit>(sc)) continue; n = sc->getName().str() + "::" + n; } fns[n]++; }
    } }
  { std::string r = "{"; for (auto &p : lines) r += (r.size() > 1 ? ", " : "") + jstr(p.first) + ": " + std::to_string(p.second.size()); kv("repo_lines", r + "}"); }
  { std::string r = "["; for (auto &p : fns) r += (r.size() > 1 ? ", " : "") + jstr(p.first); kv("repo_functions", r + "]"); }
  auto ivec = [&](const std::vector<std::pair<std::string, uint64_t>> &v) { std::string r = "["; for (auto &x : v) r += (r.size() > 1 ? ", [" : "[") + jstr(x.first) + ", " + std::to_string(x.second) + "]"; return r + "]"; };
  { std::string r = "["; for (auto &v : E.viols) r += (r.size() > 1 ? ",\n    " : "\n    ") + std::string("{\"kind\": ") + jstr(v.kind) + ", \"msg\": " + jstr(v.msg) + ", \"where\": " + jstr(v.where) + ", \"inputs\": " + ivec(v.inputs) + ", \"outs\": " + ivec(v.outs) + "}"; kv("violations", r + "]"); }
  { std::string r = "["; for (auto &w : E.witnesses) r += (r.size() > 1 ? ",\n    " : "\n    ") + std::string("{\"inputs\": ") + ivec(w.inputs) + ", \"outs\": " + ivec(w.outs) + "}"; kv("witnesses", r + "]"); }
  o += "  \"seed\": " + std::to_string(A.seed) + "\n}\n";
  FILE *f = A.out.empty() ? stdout : fopen(A.out.c_str(), "w"); fputs(o.c_str(), f); if (f != stdout) fclose(f);
  if (A.verbose) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : E.forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "%8lu forks @ %s\n", (unsigned long)v[i].first, v[i].second.c_str()); 
    std::vector<std::pair<uint64_t, std::string>> c; for (auto &p : E.finfo) c.push_back({p.second->calls, p.second->name}); std::sort(c.rbegin(), c.rend()); for (size_t i = 0; i < c.size() && i < 15; i++) fprintf(stderr, "%8lu calls %s\n", (unsigned long)c[i].first, llvm::demangle(c[i].second).substr(0, 150).c_str()); }
  (void)tInit;
  rc = E.viols.empty() ? 0 : 1;
  fflush(nullptr); _exit(rc);
  return nullptr;
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--entry") A.entry = nx(); else if (a == "--out") A.out = nx(); else if (a == "--time") A.tl = atof(nx().c_str()); else if (a == "--qt") A.qt = atoi(nx().c_str());
    else if (a == "--witness") A.wit = atoi(nx().c_str()); else if (a == "--seed") A.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--steps") A.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--paths") A.maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "-v") A.verbose = true; else if (a == "--dump") A.dump = nx(); else if (a == "--prefix") A.prefix = nx(); else if (a == "--enum") A.maxEnum = atoi(nx().c_str()); else if (a == "--mem") A.mem = atoi(nx().c_str());
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); A.params[p.substr(0, e)] = strtoll(p.substr(e + 1).c_str(), 0, 0); }
    else A.bc = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t th; if (pthread_create(&th, &at, mainThread, nullptr)) { perror("thread"); return 3; }
  pthread_join(th, nullptr);
  return rc;
}
