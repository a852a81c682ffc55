#include "engine.h"
#include <llvm/IR/Intrinsics.h>
namespace sx {

std::string Engine::where(State &s, int maxFrames) {
  std::string r; int n = 0;
  for (int i = (int)s.frames.size() - 1; i >= 0 && n < maxFrames; i--) {
    Frame &f = s.frames[i];
    std::string nm = llvm::demangle(f.f->name);
    if (nm.size() > 120) nm = nm.substr(0, 117) + "...";
    std::string loc;
    if (f.pc < f.f->code.size() && f.f->code[f.pc].I) {
      if (auto &dl = f.f->code[f.pc].I->getDebugLoc()) { auto *sc = cast<DIScope>(dl.getScope()); loc = (sc->getFilename() + ":" + std::to_string(dl.getLine())).str(); }
    }
    r += (n ? " < " : "") + nm + (loc.empty() ? "" : " (" + loc + ")");
    n++;
  }
  return r;
}
void Engine::endPath(State &s, const char *why) { (void)s; (void)why; throw PathEnd(); }
void Engine::internalError(State &s, const std::string &msg) {
  std::string w = msg + " @ " + where(s, 4);
  incomplete.insert("engine: " + w);
  throw PathEnd();
}
void Engine::record(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  if (!violMsgs.insert(kind + msg).second) return;
  Violation v; v.msg = msg; v.kind = kind; v.where = where(s);
  Evaluator e2;
  for (auto &i : s.inputs) v.inputs.push_back({i.name, i.e ? e2.eval(i.e, m) : i.c});
  for (auto &o : s.outs) v.outs.push_back({o.tag, o.v.e ? e2.eval(o.v.e, m) : o.v.c});
  viols.push_back(v);
}
void Engine::violation(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m) {
  record(s, kind, msg, m ? *m : *s.model);
  throw PathEnd();
}

State *Engine::fork(State &s) { State *t = new State(s); t->forks++; forks++; states++;
  if (verbose) forkSites[where(s, 3)]++;
  return t; }

void Engine::addC(State &s, Expr *c) {
  if (c->op == CONST) return;
  if (c->op == AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  if (c->op == NOT && c->a->op == OR) { addC(s, cx.not1(c->a->a)); addC(s, cx.not1(c->a->b)); return; }
  s.path.push_back(c);
}

bool Engine::branch(State &s, Expr *c) {
  if (c->op == CONST) return c->val;
  Expr *nc = cx.not1(c);
  if (int k = s.known(c, nc); k >= 0) return k;
  bool v = ev.eval(c, *s.model);
  std::shared_ptr<Model> m;
  Res r = feasible(s, v ? nc : c, &m);
  if (r == SAT) {
    State *t = fork(s);
    addC(*t, v ? nc : c); t->model = m;
    work.push_back(t);
    addC(s, v ? c : nc);
  } else if (r == UNKNOWN) {
    incomplete.insert("solver timeout on a branch @ " + where(s, 3));
    addC(s, v ? c : nc);
  } else s.facts.push_back(v ? c : nc); // implied, no need to add
  return v;
}

uint64_t Engine::concretize(State &s, Val v, unsigned w, const char *why) {
  if (!v.e) return v.c;
  uint64_t x = ev.eval(v.e, *s.model);
  Expr *c = cx.eq(v.e, cx.cst(x, w));
  if (c->op == CONST) return x;
  for (auto p : s.path) if (p == c) return x;
  std::shared_ptr<Model> m;
  Expr *nc = cx.not1(c);
  Res r = feasible(s, nc, &m);
  if (r == SAT) {
    if (s.enumCount > (int)maxEnum) { incomplete.insert(std::string("too many values to enumerate (") + why + ") @ " + where(s, 3)); }
    else { State *t = fork(s); t->enumCount++; addC(*t, nc); t->model = m; work.push_back(t); }
    addC(s, c); s.enumCount = 0;
  } else if (r == UNKNOWN) { incomplete.insert(std::string("solver timeout (") + why + ") @ " + where(s, 3)); addC(s, c); }
  else s.enumCount = 0;
  return x;
}

// ---------------------------------------------------------------- memory
Expr *Engine::byteE(Obj *o, uint32_t off) {
  if (o->nsym && o->sym[off].e) { SymB &b = o->sym[off]; return cx.extract(b.e, 8 * b.k, 8); }
  return cx.cst(o->data[off], 8);
}
Val Engine::loadBytes(State &s, Obj *o, uint32_t off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  bool anySym = false;
  if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { anySym = true; break; }
  if (!anySym) { uint64_t v = 0; memcpy(&v, o->data + off, n); return {v & maskw(bits), nullptr}; }
  SymB f = o->sym[off];
  if (f.e) {
    bool same = true;
    for (unsigned i = 1; i < n; i++) if (o->sym[off + i].e != f.e || o->sym[off + i].k != f.k + i) { same = false; break; }
    if (same) return fromE(cx.extract(f.e, 8 * f.k, bits));
  }
  Expr *r = byteE(o, off);
  for (unsigned i = 1; i < n; i++) r = cx.concat(byteE(o, off + i), r);
  return fromE(cx.extract(r, 0, bits));
}
void Engine::storeBytes(State &s, Obj *o, uint32_t off, Val v, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (!v.e) {
    uint64_t x = v.c & maskw(bits); memcpy(o->data + off, &x, n);
    if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { o->sym[off + i].e = nullptr; o->nsym--; }
    return;
  }
  if (!o->sym) { o->sym = (SymB *)calloc(o->size + 1, sizeof(SymB)); }
  else if (!o->nsym) memset(o->sym, 0, sizeof(SymB) * (o->size + 1));
  Expr *e = cx.zext(v.e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    SymB &b = o->sym[off + i];
    // constant parts are stored concretely
    Expr *x = n == 1 ? e : nullptr;
    if (x && x->op == CONST) { if (b.e) { b.e = nullptr; o->nsym--; } o->data[off + i] = x->val; continue; }
    if (!b.e) o->nsym++;
    b.e = e; b.k = i;
  }
}
Obj *Engine::checkAccess(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  uint32_t id = addr >> 32, off = (uint32_t)addr;
  Obj *o = s.get(id);
  if (id == 0) violation(s, "memory", std::string(what) + " through null pointer");
  if (!o) violation(s, "memory", std::string(what) + " through wild pointer");
  if (o->kind == OK_DEAD) violation(s, "memory", std::string(what) + " of freed " + objKindName[o->was] + " memory (use after free or after scope)");
  if (n && (uint64_t)off + n > o->size) {
    if (o->kind == OK_EXTERN) internalError(s, "access to external object " + (o->name ? *o->name : ""));
    violation(s, "memory", std::string(what) + " out of bounds of a " + objKindName[o->kind] + " object");
  }
  if (write && o->ro) violation(s, "memory", std::string(what) + " to read-only memory");
  if (o->kind == OK_FUNC) violation(s, "memory", std::string(what) + " of function memory");
  return o;
}
uint64_t Engine::resolveObj(State &s, Expr *addr) {
  Expr *hi = cx.extract(addr, 32, 32);
  uint64_t id = concretize(s, fromE(hi), 32, "object of a symbolic pointer");
  return id << 32;
}
static unsigned trailingZeros(Expr *e) {
  switch (e->op) {
  case CONST: return e->val ? __builtin_ctzll(e->val) : 64;
  case CONCAT: { unsigned l = trailingZeros(e->b); return l >= e->b->w ? e->b->w + trailingZeros(e->a) : l; }
  case ADD: case SUB: case OR: case XOR: return std::min(trailingZeros(e->a), trailingZeros(e->b));
  case AND: return std::max(trailingZeros(e->a), trailingZeros(e->b));
  case MUL: return trailingZeros(e->a) + trailingZeros(e->b);
  case ZEXT: case SEXT: { unsigned t = trailingZeros(e->a); return t >= e->a->w ? 64 : t; }
  case ITE: return std::min(trailingZeros(e->b), trailingZeros(e->c));
  case EXTRACT: { unsigned t = trailingZeros(e->a); return t > e->imm ? t - e->imm : 0; }
  default: return 0;
  }
}
// Writes e as a function of one small sub-term y: chain holds the nodes from e
// down to (excluding) y.  Earlier table lookups are looked through.
static Expr *smallCore(Expr *e, std::vector<Expr *> &chain, std::unordered_map<Expr *, std::pair<Expr *, std::shared_ptr<std::vector<uint64_t>>>> &tables) {
  Expr *best = nullptr; size_t bestLen = 0;
  for (int depth = 0; depth < 24; depth++) {
    if (e->op == CONST) break;
    if (e->hi < 4096) { best = e; bestLen = chain.size(); }
    auto t = tables.find(e);
    Expr *c = nullptr;
    if (t != tables.end()) c = t->second.first;
    else switch (e->op) {
      case ZEXT: case SEXT: case NOT: case EXTRACT: c = e->a; break;
      case ADD: case SUB: case MUL: case AND: case OR: case XOR: case SHL: case LSHR: case CONCAT:
        if (e->b->op == CONST) c = e->a; else if (e->a->op == CONST) c = e->b; break;
      default: break;
    }
    if (!c) break;
    chain.push_back(e);
    e = c;
  }
  chain.resize(bestLen);
  return best;
}
Val Engine::load(State &s, Val addr, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (!addr.e) { Obj *o = checkAccess(s, addr.c, n, false, "read"); return loadBytes(s, o, (uint32_t)addr.c, bits); }
  uint64_t base = resolveObj(s, addr.e);
  Obj *o = checkAccess(s, base, 0, false, "read");
  Expr *off = cx.extract(addr.e, 0, 32);
  if (off->op == CONST) { checkAccess(s, base + off->val, n, false, "read"); return loadBytes(s, o, off->val, bits); }
  if (o->size < n || !branch(s, cx.mk(ULE, 1, off, cx.cst(o->size - n, 32)))) {
    if (o->kind == OK_EXTERN) internalError(s, "access to external object");
    violation(s, "memory", std::string("read out of bounds of a ") + objKindName[o->kind] + " object");
  }
  unsigned tz = std::min(trailingZeros(off), 6u); uint32_t stride = 1u << tz;
  uint64_t lo = off->lo, hi = std::min<uint64_t>(off->hi, o->size - n);
  lo = (lo + stride - 1) / stride * stride;
  uint64_t cnt = hi >= lo ? (hi - lo) / stride + 1 : 0;
  if (cnt == 0 || cnt > 2048) {
    uint64_t v = concretize(s, fromE(off), 32, "symbolic read offset");
    return loadBytes(s, o, v, bits);
  }
  { // a table of constants indexed by a function of one small term
    std::vector<Expr *> chain;
    Expr *y = smallCore(off, chain, tables);
    if (y && y->hi - y->lo < 4096) {
      auto tbl = std::make_shared<std::vector<uint64_t>>();
      bool ok = true, ident = true, allc = true;
      for (uint64_t v = y->lo; ok && v <= y->hi; v++) {
        uint64_t x = v;
        Expr *below = y;
        for (size_t i = chain.size(); i-- > 0 && ok;) {
          Expr *e = chain[i];
          auto t = tables.find(e);
          if (t != tables.end()) { if (x < below->lo || x - below->lo >= t->second.second->size()) ok = false; else x = (*t->second.second)[x - below->lo]; }
          else {
            uint64_t av = e->a == below ? x : e->a->val, bv = e->b ? (e->b == below && e->a != below ? x : e->b->val) : 0;
            x = evalOp(e->op, e->w, e->imm, e->a->w, av, bv, 0, e->b ? e->b->w : 0);
          }
          below = e;
        }
        if (!ok) break;
        if (x + n > o->size) { ok = false; break; } // not reachable: keep the exact treatment below
        Val r = loadBytes(s, o, (uint32_t)x, bits);
        if (r.e) { ok = false; break; }
        tbl->push_back(r.c);
        if (r.c != v) ident = false;
        if (r.c != (*tbl)[0]) allc = false;
      }
      if (ok) {
        if (allc) return Val{(*tbl)[0], nullptr};
        if (ident) return fromE(y->w >= bits ? cx.extract(y, 0, bits) : cx.zext(y, bits));
        std::function<Expr *(uint64_t, uint64_t)> build = [&](uint64_t i, uint64_t j) -> Expr * {
          if (i == j) return cx.cst((*tbl)[i], bits);
          uint64_t mid = (i + j) / 2;
          Expr *l = build(i, mid), *r = build(mid + 1, j);
          if (l == r) return l;
          return cx.ite(cx.mk(ULE, 1, y, cx.cst(y->lo + mid, y->w)), l, r);
        };
        Expr *r = build(0, tbl->size() - 1);
        if (r->op == ITE) tables[r] = {y, tbl};
        return fromE(r);
      }
    }
  }
  // balanced selection tree over all offsets in range
  std::function<Expr *(uint64_t, uint64_t)> build = [&](uint64_t i, uint64_t j) -> Expr * {
    if (i == j) return E(loadBytes(s, o, lo + i * stride, bits), bits);
    uint64_t mid = (i + j) / 2;
    Expr *l = build(i, mid), *r = build(mid + 1, j);
    if (l == r) return l;
    return cx.ite(cx.mk(ULE, 1, off, cx.cst(lo + mid * stride, 32)), l, r);
  };
  return fromE(build(0, cnt - 1));
}
void Engine::store(State &s, Val addr, Val v, unsigned bits) {
  unsigned n = (bits + 7) / 8; uint64_t a = addr.c;
  if (addr.e) {
    uint64_t base = resolveObj(s, addr.e);
    Obj *o = checkAccess(s, base, 0, true, "write");
    Expr *off = cx.extract(addr.e, 0, 32);
    if (o->size < n || !branch(s, cx.mk(ULE, 1, off, cx.cst(o->size - n, 32)))) violation(s, "memory", std::string("write out of bounds of a ") + objKindName[o->kind] + " object");
    a = base + concretize(s, fromE(off), 32, "symbolic write offset");
  }
  checkAccess(s, a, n, true, "write");
  storeBytes(s, s.wr(a >> 32), (uint32_t)a, v, bits);
}
uint64_t Engine::heapAlloc(State &s, uint64_t n, ObjKind k, int fill) {
  uint32_t id = s.alloc(n, k, fill);
  if (k == OK_HEAP) { s.liveHeap++; s.heapAllocs++; }
  if (s.nobj > maxMemObjs) internalError(s, "too many objects");
  return (uint64_t)id << 32;
}
void Engine::heapFree(State &s, uint64_t addr, const char *what) {
  if (!addr) return;
  Obj *o = s.get(addr >> 32);
  if (!o) violation(s, "memory", std::string(what) + " of a wild pointer");
  if (o->kind == OK_DEAD) violation(s, "memory", std::string(what) + " of memory that was already freed");
  if ((uint32_t)addr != 0 || (o->kind != OK_HEAP)) violation(s, "memory", std::string(what) + " of a pointer that was not allocated");
  s.kill(addr >> 32); s.liveHeap--;
}
std::string Engine::cstr(State &s, uint64_t a) {
  std::string r; Obj *o = s.get(a >> 32); if (!o || o->kind == OK_DEAD) return "?";
  for (uint32_t i = (uint32_t)a; i < o->size && o->data[i]; i++) { if (o->nsym && o->sym[i].e) { r += '?'; continue; } r += (char)o->data[i]; if (r.size() > 4000) break; }
  return r;
}

// ---------------------------------------------------------------- control
void Engine::jump(State &s, int ei) {
  Frame &f = s.frames.back(); Edge &e = f.f->edges[ei];
  size_t n = e.moves.size();
  if (n) {
    Val tmpS[32]; std::vector<Val> tmpV; Val *t = tmpS;
    if (n > 32) { tmpV.resize(n); t = tmpV.data(); }
    for (size_t i = 0; i < n; i++) t[i] = get(s, e.moves[i].src);
    for (size_t i = 0; i < n; i++) s.regs[f.base + e.moves[i].dst] = t[i];
  }
  f.pc = e.pc;
}
void Engine::pushFrame(State &s, FuncInfo *fi, Inst *site) {
  if (!fi->decoded) decode(fi);
  fi->executed = true; fi->calls++;
  if (s.frames.size() > maxDepth) violation(s, "recursion", "call depth limit exceeded (unbounded recursion)");
  Frame f; f.f = fi; f.base = s.regs.size(); f.pc = 0; f.callSite = site;
  s.regs.resize(s.regs.size() + fi->nslots, Val{0, nullptr});
  s.frames.push_back(std::move(f));
}
void Engine::popFrame(State &s) {
  Frame &f = s.frames.back();
  for (auto id : f.allocas) s.kill(id);
  uint64_t fr = f.freeOnRet;
  s.regs.resize(f.base);
  s.frames.pop_back();
  if (fr) s.kill(fr >> 32);
}
void Engine::afterCall(State &s, Inst &in, CallInfo &ci) {
  if (ci.normal >= 0) jump(s, ci.normal); else s.frames.back().pc++;
}
void Engine::switchTo(State &s, int u) {
  Thr &a = s.thr[s.cur];
  a.regs.swap(s.regs); a.frames.swap(s.frames); a.caught.swap(s.caught); std::swap(a.uncaught, s.uncaught); std::swap(a.pendingExn, s.pendingExn); std::swap(a.pendingSel, s.pendingSel); a.skip = s.skip;
  Thr &b = s.thr[u];
  s.regs.swap(b.regs); s.frames.swap(b.frames); s.caught.swap(b.caught); std::swap(b.uncaught, s.uncaught); std::swap(b.pendingExn, s.pendingExn); std::swap(b.pendingSel, s.pendingSel); s.skip = b.skip;
  s.cur = u;
}
void Engine::threadDone(State &s) {
  s.thr[s.cur].done = true;
  std::vector<int> run;
  for (int u = 1; u < (int)s.thr.size(); u++) if (!s.thr[u].done) run.push_back(u);
  if (run.empty()) { s.skip = false; switchTo(s, 0); s.thr.clear(); return; }
  for (size_t i = 1; i < run.size(); i++) { State *t = fork(s); t->inputs.push_back({"@next", nullptr, (uint64_t)run[i], 64}); switchTo(*t, run[i]); work.push_back(t); }
  s.inputs.push_back({"@next", nullptr, (uint64_t)run[0], 64});
  switchTo(s, run[0]);
}
void Engine::schedule(State &s) {
  if (s.skip) return; // decided already
  s.skip = true; s.events++;
  if (!s.preLeft) return;
  for (int u = 1; u < (int)s.thr.size(); u++) {
    if (u == s.cur || s.thr[u].done) continue;
    State *t = fork(s); t->preLeft--;
    t->inputs.push_back({"@event", nullptr, s.events, 64}); t->inputs.push_back({"@switch", nullptr, (uint64_t)u, 64});
    switchTo(*t, u);
    work.push_back(t);
  }
}
void Engine::doRet(State &s, Inst *in) {
  Frame &f = s.frames.back();
  Inst *site = f.callSite; bool dtor = f.isDtor;
  Val tmp[16]; std::vector<Val> tv; Val *t = tmp; unsigned n = in ? in->lanes : 0;
  if (n > 16) { tv.resize(n); t = tv.data(); }
  for (unsigned i = 0; i < n; i++) t[i] = get(s, in->a, i);
  popFrame(s);
  if (s.frames.empty()) { if (s.cur > 0) threadDone(s); return; }
  if (!site) return;
  CallInfo &ci = calls[site->x];
  if (!dtor && site->dst >= 0) for (unsigned i = 0; i < n && (int)i < ci.retN; i++) set(s, site->dst + i, t[i]);
  afterCall(s, *site, ci);
}

void Engine::doCall(State &s, Inst &in, CallInfo &ci) {
  FuncInfo *fi = ci.fi; Builtin bi = ci.bi;
  if (!fi && !bi) {
    if (ci.callee) {
      if (ci.intr) {
        Val ret{0, nullptr};
        intrinsic(s, in, ci, ret);
        if (in.dst >= 0 && ci.retN == 1) set(s, in.dst, ret);
        afterCall(s, in, ci); return;
      }
      fi = ci.fi = info(ci.callee);
      bi = fi->bi;
      if (bi) ci.bi = bi;
    } else {
      Val t = get(s, ci.calleeOp);
      uint64_t a = concretize(s, t, 64, "indirect call target");
      auto it = (uint32_t)a == 0 ? funcByObj.find(a >> 32) : funcByObj.end();
      if (it == funcByObj.end()) {
        violation(s, "memory", "call through an invalid function pointer");
      }
      fi = info(it->second); bi = fi->bi;
      if (it->second->getIntrinsicID()) internalError(s, "indirect intrinsic");
    }
  }
  if (bi) {
    Val ret{0, nullptr};
    if (ci.name.empty() && fi) ci.name = fi->name;
    std::string saved; 
    BR r = (this->*bi)(s, in, ci, ret);
    if (!ci.callee) ci.name.clear();
    if (r == BR::Done) { if (in.dst >= 0 && ci.retN >= 1) set(s, in.dst, ret); afterCall(s, in, ci); }
    return;
  }
  if (fi->F->isDeclaration()) internalError(s, "call of external function " + llvm::demangle(fi->name) + " [" + fi->name + "]");
  // copy byval arguments
  Val argv[64]; unsigned n = 0; std::vector<uint32_t> copies;
  if (!fi->decoded) decode(fi);
  unsigned need = fi->argSlots.size();
  if (ci.args.size() < need) internalError(s, "argument count mismatch");
  for (unsigned i = 0; i < need; i++) {
    if (ci.args[i].byval) {
      uint64_t src = concretize(s, get(s, ci.args[i].op), 64, "byval");
      Obj *o = checkAccess(s, src, ci.args[i].byval, false, "read");
      uint32_t id = s.alloc(ci.args[i].byval, OK_STACK, 0); copies.push_back(id);
      o = s.get(src >> 32); Obj *d = s.get(id);
      for (uint64_t k = 0; k < ci.args[i].byval; k++) { uint32_t so = (uint32_t)src + k; if (o->nsym && o->sym[so].e) storeBytes(s, d, k, fromE(byteE(o, so)), 8); else d->data[k] = o->data[so]; }
      argv[n++] = {(uint64_t)id << 32, nullptr};
    } else for (unsigned k = 0; k < ci.args[i].n && n < 64; k++) argv[n++] = get(s, ci.args[i].op, k);
  }
  pushFrame(s, fi, &in);
  Frame &f = s.frames.back();
  for (auto c : copies) f.allocas.push_back(c);
  unsigned j = 0;
  for (unsigned i = 0; i < need; i++) for (int k = 0; k < fi->argN[i]; k++) s.regs[f.base + fi->argSlots[i] + k] = argv[j++];
}

// ---------------------------------------------------------------- exceptions
std::string Engine::tinfoName(State &s, uint64_t t) {
  Obj *o = s.get(t >> 32); if (!o) return "?";
  std::string n;
  if (o->kind == OK_EXTERN) n = o->name ? *o->name : "?";
  else { uint64_t p; memcpy(&p, o->data + (uint32_t)t + 8, 8); n = "_ZTS" + cstr(s, p); return llvm::demangle(n).substr(19); }
  n = llvm::demangle(n); return n.rfind("typeinfo for ", 0) == 0 ? n.substr(13) : n;
}
bool Engine::typeMatches(State &s, uint64_t th, uint64_t want, uint64_t &adj, int depth) {
  if (th == want) return true;
  if (depth > 20) return false;
  Obj *o = s.get(th >> 32);
  if (!o || o->kind != OK_GLOBAL) return false;
  uint64_t vp; memcpy(&vp, o->data, 8);
  auto addrOf = [&](const char *n) -> uint64_t { auto *g = M.getNamedValue(n); if (!g) return 0; auto it = gaddr.find(cast<GlobalValue>(g)); return it == gaddr.end() ? 0 : it->second + 16; };
  static uint64_t si = 0, vmi = 0; static bool init = false;
  if (!init) { init = true; si = addrOf("_ZTVN10__cxxabiv120__si_class_type_infoE"); vmi = addrOf("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); }
  if (si && vp == si) { uint64_t b; memcpy(&b, o->data + 16, 8); return typeMatches(s, b, want, adj, depth + 1); }
  if (vmi && vp == vmi) {
    uint32_t cnt; memcpy(&cnt, o->data + 20, 4);
    for (uint32_t i = 0; i < cnt; i++) {
      uint64_t b; int64_t fl; memcpy(&b, o->data + 24 + 16 * i, 8); memcpy(&fl, o->data + 32 + 16 * i, 8);
      uint64_t a2 = adj + (fl >> 8);
      if (fl & 1) { // virtual base: offset in the vtable
        uint64_t vt = loadBytes(s, s.get(adj >> 32), (uint32_t)adj, 64).c; uint64_t slot = vt + (fl >> 8);
        a2 = adj + loadBytes(s, s.get(slot >> 32), (uint32_t)slot, 64).c;
      }
      if (typeMatches(s, b, want, a2, depth + 1)) { adj = a2; return true; }
    }
  }
  return false;
}
void Engine::unwind(State &s, uint64_t ea) {
  ExnRec *r = exn(s, ea);
  uint64_t ti = r->tinfo; uint64_t prim = r->primary ? r->primary : ea;
  // phase 1: is there a handler?
  int handlerFrame = -1; 
  for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
    Frame &f = s.frames[i];
    if (f.isDtor) violation(s, "terminate", "exception thrown out of an exception object's destructor");
    Inst &in = f.f->code[f.pc];
    if (in.op != I_CALL && in.op != I_RESUME) continue;
    if (in.op == I_RESUME) continue;
    CallInfo &ci = calls[in.x];
    if (ci.unwind < 0) {
      if (ci.nounwind && i != (int)s.frames.size() - 1) violation(s, "terminate", "exception of type " + tinfoName(s, ti) + " escapes a function that must not throw");
      continue;
    }
    Edge &e = f.f->edges[ci.unwind];
    auto *lp = cast<LandingPadInst>(f.f->code[e.pc].I);
    bool h = false;
    for (unsigned c = 0; c < lp->getNumClauses(); c++) {
      if (lp->isFilter(c)) { h = true; break; }
      uint64_t w = constVal(lp->getClause(c)); uint64_t adj = prim;
      if (!w || typeMatches(s, ti, w, adj)) { h = true; break; }
    }
    if (h) { handlerFrame = i; break; }
  }
  if (handlerFrame < 0) violation(s, "uncaught", "uncaught exception of type " + tinfoName(s, ti));
  // phase 2
  while (!s.frames.empty()) {
    Frame &f = s.frames.back();
    Inst &in = f.f->code[f.pc];
    if (in.op == I_CALL && calls[in.x].unwind >= 0) {
      CallInfo &ci = calls[in.x];
      Edge &e = f.f->edges[ci.unwind];
      Inst &li = f.f->code[e.pc];
      auto *lp = cast<LandingPadInst>(li.I);
      uint64_t sel = 0; bool enter = lp->isCleanup();
      for (unsigned c = 0; c < lp->getNumClauses(); c++) {
        if (lp->isFilter(c)) { sel = (uint64_t)-1; enter = true; break; }
        uint64_t w = constVal(lp->getClause(c)); uint64_t adj = prim;
        if (!w) { sel = 0x7ffffff0; enter = true; r = exn(s, ea); r->adjusted = adj; break; }
        if (typeMatches(s, ti, w, adj)) { sel = (w >> 32); enter = true; r = exn(s, ea); r->adjusted = adj; break; }
      }
      if (enter) {
        jump(s, ci.unwind);
        set(s, li.dst, {ea, nullptr}); set(s, li.dst + 1, {sel & 0xffffffff, nullptr});
        s.frames.back().pc++;
        return;
      }
    }
    popFrame(s);
  }
  violation(s, "uncaught", "uncaught exception");
}
void Engine::callDtor(State &s, uint64_t fn, uint64_t obj, bool freeExn) {
  auto it = funcByObj.find(fn >> 32);
  if (it == funcByObj.end()) internalError(s, "bad exception destructor");
  FuncInfo *fi = info(it->second);
  if (fi->F->isDeclaration()) internalError(s, "external exception destructor " + fi->name);
  Inst *site = &s.frames.back().f->code[s.frames.back().pc];
  pushFrame(s, fi, site);
  Frame &f = s.frames.back(); f.isDtor = true; f.freeOnRet = obj;
  s.regs[f.base + fi->argSlots[0]] = {obj, nullptr};
}
// Drops one reference; may push a destructor frame (then returns with frames grown).
void Engine::exnRelease(State &s, uint64_t a) {
  ExnRec *r = exn(s, a);
  if (!r) violation(s, "memory", "release of an unknown exception object");
  if (--r->refcnt > 0) return;
  uint64_t prim = r->primary, d = r->dtor;
  for (size_t i = 0; i < s.exns.size(); i++) if (s.exns[i].addr == a) { s.exns.erase(s.exns.begin() + i); break; }
  if (prim) { s.kill(a >> 32); exnRelease(s, prim); return; }
  if (d) callDtor(s, d, a, true); else s.kill(a >> 32);
}

// ---------------------------------------------------------------- the interpreter loop
static inline Op fcmpBase(unsigned p) { return FOEQ; }

void Engine::run(State *sp) {
  State &s = *sp;
  try {
    uint64_t local = 0;
    while (!s.frames.empty()) {
      if (++s.steps > maxSteps) violation(s, "steps", "step limit exceeded (possible non-termination)");
      steps++;
      if ((++local & 0xffff) == 0 && deadline && nowS() > deadline) { incomplete.insert("time limit"); throw PathEnd(); }
      step(s);
    }
    finish(s);
  } catch (PathEnd &) {
    killed++;
  }
}

void Engine::step(State &s) {
  Frame &f = s.frames.back();
  Inst &in = f.f->code[f.pc];
  in.hit = true;
  switch (in.op) {
  case I_BIN: {
    for (unsigned k = 0; k < in.lanes; k++) {
      Val a = get(s, in.a, k), b = get(s, in.b, k); unsigned w = in.w; Op op = (Op)in.sub;
      if (!a.e && !b.e) {
        if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && b.c == 0) violation(s, "arith", "division by zero");
        set(s, in.dst + k, {evalOp(op, w, 0, w, a.c, b.c, 0, w), nullptr});
      } else {
        Expr *x = E(a, w), *y = E(b, w);
        if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
          if (branch(s, cx.eq(y, cx.cst(0, w)))) violation(s, "arith", "division by zero");
          if ((op == SDIV || op == SREM) && w >= 32 && branch(s, cx.andb(cx.eq(y, cx.cst(~0ull, w)), cx.eq(x, cx.cst(1ull << (w - 1), w))))) violation(s, "arith", "signed division overflow");
        }
        set(s, in.dst + k, fromE(cx.mk(op, w, x, y)));
      }
    }
    s.frames.back().pc++; break;
  }
  case I_FNEG:
    for (unsigned k = 0; k < in.lanes; k++) {
      Val a = get(s, in.a, k); uint64_t sb = 1ull << (in.w - 1);
      set(s, in.dst + k, a.e ? fromE(cx.mk(XOR, in.w, a.e, cx.cst(sb, in.w))) : Val{a.c ^ sb, nullptr});
    }
    f.pc++; break;
  case I_ICMP:
    for (unsigned k = 0; k < in.lanes; k++) {
      Val a = get(s, in.a, k), b = get(s, in.b, k); unsigned w = in.w;
      if (!a.e && !b.e) {
        bool r; int64_t x = sextw(a.c, w), y = sextw(b.c, w);
        switch (in.sub) {
        case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
        case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
        case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
        case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; break;
        }
        set(s, in.dst + k, {r, nullptr});
      } else {
        Expr *x = E(a, w), *y = E(b, w), *r;
        switch (in.sub) {
        case CmpInst::ICMP_EQ: r = cx.eq(x, y); break; case CmpInst::ICMP_NE: r = cx.not1(cx.eq(x, y)); break;
        case CmpInst::ICMP_ULT: r = cx.mk(ULT, 1, x, y); break; case CmpInst::ICMP_ULE: r = cx.mk(ULE, 1, x, y); break;
        case CmpInst::ICMP_UGT: r = cx.mk(ULT, 1, y, x); break; case CmpInst::ICMP_UGE: r = cx.mk(ULE, 1, y, x); break;
        case CmpInst::ICMP_SLT: r = cx.mk(SLT, 1, x, y); break; case CmpInst::ICMP_SLE: r = cx.mk(SLE, 1, x, y); break;
        case CmpInst::ICMP_SGT: r = cx.mk(SLT, 1, y, x); break; default: r = cx.mk(SLE, 1, y, x); break;
        }
        set(s, in.dst + k, fromE(r));
      }
    }
    f.pc++; break;
  case I_FCMP:
    for (unsigned k = 0; k < in.lanes; k++) {
      Expr *x = E(get(s, in.a, k), in.w), *y = E(get(s, in.b, k), in.w), *r;
      auto O = [&](Op o, Expr *p, Expr *q) { return cx.mk(o, 1, p, q); };
      switch (in.sub) {
      case CmpInst::FCMP_FALSE: r = cx.F(); break; case CmpInst::FCMP_TRUE: r = cx.T(); break;
      case CmpInst::FCMP_OEQ: r = O(FOEQ, x, y); break; case CmpInst::FCMP_OLT: r = O(FOLT, x, y); break; case CmpInst::FCMP_OLE: r = O(FOLE, x, y); break;
      case CmpInst::FCMP_OGT: r = O(FOLT, y, x); break; case CmpInst::FCMP_OGE: r = O(FOLE, y, x); break;
      case CmpInst::FCMP_ONE: r = cx.andb(cx.not1(O(FOEQ, x, y)), cx.not1(O(FUNO, x, y))); break;
      case CmpInst::FCMP_ORD: r = cx.not1(O(FUNO, x, y)); break; case CmpInst::FCMP_UNO: r = O(FUNO, x, y); break;
      case CmpInst::FCMP_UEQ: r = cx.orb(O(FOEQ, x, y), O(FUNO, x, y)); break; case CmpInst::FCMP_UNE: r = cx.not1(O(FOEQ, x, y)); break;
      case CmpInst::FCMP_ULT: r = cx.not1(O(FOLE, y, x)); break; case CmpInst::FCMP_ULE: r = cx.not1(O(FOLT, y, x)); break;
      case CmpInst::FCMP_UGT: r = cx.not1(O(FOLE, x, y)); break; default: r = cx.not1(O(FOLT, x, y)); break;
      }
      set(s, in.dst + k, fromE(r));
    }
    f.pc++; break;
  case I_SELECT: {
    auto &l = leafs[in.x];
    for (unsigned k = 0; k < in.lanes; k++) {
      Val c = get(s, in.a, in.sub ? k : 0), a = get(s, in.b, k), b = get(s, in.c, k);
      Val r;
      if (!c.e) r = c.c ? a : b;
      else if (!a.e && !b.e && a.c == b.c) r = a;
      else if (int kn = s.known(c.e, cx.not1(c.e)); kn >= 0) r = kn ? a : b;
      else r = fromE(cx.ite(c.e, E(a, l[k].bits), E(b, l[k].bits)));
      set(s, in.dst + k, r);
    }
    f.pc++; break;
  }
  case I_CAST:
    for (unsigned k = 0; k < in.lanes; k++) {
      Val a = get(s, in.a, k); unsigned w = in.w, sw = in.sw; Val r{0, nullptr};
      switch (in.sub) {
      case Instruction::Trunc: r = a.e ? fromE(cx.extract(a.e, 0, w)) : Val{a.c & maskw(w), nullptr}; break;
      case Instruction::ZExt: r = a.e ? fromE(cx.zext(a.e, w)) : a; break;
      case Instruction::SExt: r = a.e ? fromE(cx.sext(a.e, w)) : Val{(uint64_t)sextw(a.c, sw) & maskw(w), nullptr}; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (a.e) r = fromE(w < a.e->w ? cx.extract(a.e, 0, w) : cx.zext(a.e, w)); else r = {a.c & maskw(w), nullptr}; break;
      case Instruction::FPExt: r = fromE(cx.mk(FPEXT, w, E(a, sw))); break;
      case Instruction::FPTrunc: r = fromE(cx.mk(FPTRUNC, w, E(a, sw))); break;
      case Instruction::FPToSI: r = fromE(cx.mk(FPTOSI, w, E(a, sw))); break;
      case Instruction::FPToUI: r = fromE(cx.mk(FPTOUI, w, E(a, sw))); break;
      case Instruction::SIToFP: r = fromE(cx.mk(SITOFP, w, E(a, sw))); break;
      case Instruction::UIToFP: r = fromE(cx.mk(UITOFP, w, E(a, sw))); break;
      default: internalError(s, "cast");
      }
      set(s, in.dst + k, r);
    }
    f.pc++; break;
  case I_BITCAST: {
    unsigned ns = in.b, nd = in.lanes;
    if (ns == nd) { for (unsigned k = 0; k < nd; k++) set(s, in.dst + k, get(s, in.a, k)); }
    else {
      // via bytes
      std::vector<Expr *> bytes;
      for (unsigned k = 0; k < ns; k++) { Expr *e = E(get(s, in.a, k), in.sw); for (unsigned j = 0; j < in.sw / 8u; j++) bytes.push_back(cx.extract(e, 8 * j, 8)); }
      unsigned per = in.w / 8;
      if (in.w % 8 || in.sw % 8) internalError(s, "bit-granular bitcast");
      for (unsigned k = 0; k < nd; k++) { Expr *e = bytes[k * per]; for (unsigned j = 1; j < per; j++) e = cx.concat(bytes[k * per + j], e); set(s, in.dst + k, fromE(e)); }
    }
    f.pc++; break;
  }
  case I_COPY: for (unsigned k = 0; k < in.lanes; k++) set(s, in.dst + k, get(s, in.a, k)); f.pc++; break;
  case I_LOAD: {
    Val a = get(s, in.a); schedPoint(s, a);
    if (in.lanes == 1) { Val v = load(s, a, in.w); set(s, in.dst, v); }
    else { auto &l = leafs[in.x]; uint64_t b = concretize(s, a, 64, "address"); for (unsigned k = 0; k < in.lanes; k++) set(s, in.dst + k, load(s, {b + l[k].off, nullptr}, l[k].bits)); }
    s.skip = false; s.frames.back().pc++; break;
  }
  case I_STORE: {
    Val a = get(s, in.a); schedPoint(s, a);
    if (in.lanes == 1) store(s, a, get(s, in.b), in.w);
    else { auto &l = leafs[in.x]; uint64_t b = concretize(s, a, 64, "address"); for (unsigned k = 0; k < in.lanes; k++) store(s, {b + l[k].off, nullptr}, get(s, in.b, k), l[k].bits); }
    s.skip = false; s.frames.back().pc++; break;
  }
  case I_GEP: {
    GepInfo &g = geps[in.x]; Val b = get(s, in.a);
    uint64_t off = g.off; Expr *sym = nullptr;
    for (auto &t : g.terms) {
      Val v = get(s, t.op);
      if (!v.e) off += (uint64_t)(sextw(v.c, t.w) * t.scale);
      else { Expr *x = cx.mk(MUL, 64, cx.sext(v.e, 64), cx.cst(t.scale, 64)); sym = sym ? cx.mk(ADD, 64, sym, x) : x; }
    }
    if (!b.e && !sym) set(s, in.dst, {b.c + off, nullptr});
    else { Expr *r = cx.mk(ADD, 64, E(b, 64), cx.cst(off, 64)); if (sym) r = cx.mk(ADD, 64, r, sym); set(s, in.dst, fromE(r)); }
    f.pc++; break;
  }
  case I_ALLOCA: {
    uint64_t n = concretize(s, get(s, in.a), in.w, "alloca size");
    uint32_t id = s.alloc(n * (uint32_t)in.x, OK_STACK, 0xBE);
    s.frames.back().allocas.push_back(id);
    set(s, in.dst, {(uint64_t)id << 32, nullptr});
    s.frames.back().pc++; break;
  }
  case I_CALL: doCall(s, in, calls[in.x]); break;
  case I_RET: doRet(s, &in); break;
  case I_BR: jump(s, in.x); break;
  case I_CONDBR: {
    Val c = get(s, in.a);
    bool t = c.e ? branch(s, c.e) : c.c;
    jump(s, t ? in.x : in.x2); break;
  }
  case I_SWITCH: {
    Val c = get(s, in.a); SwitchInfo &si = switches[in.x]; int e = si.def;
    if (!c.e) { for (auto &p : si.cases) if (p.first == c.c) { e = p.second; break; } }
    else for (auto &p : si.cases) if (branch(s, cx.eq(c.e, cx.cst(p.first, in.w)))) { e = p.second; break; }
    jump(s, e); break;
  }
  case I_UNREACHABLE: violation(s, "unreachable", "unreachable code reached (undefined behaviour)");
  case I_LANDINGPAD: internalError(s, "landingpad executed directly");
  case I_RESUME: {
    Val v = get(s, in.a); uint64_t a = v.c;
    popFrame(s);
    if (s.frames.empty()) violation(s, "uncaught", "uncaught exception");
    unwind(s, a); break;
  }
  case I_EXTRACTELT: {
    uint64_t i = concretize(s, get(s, in.b), in.sw, "vector index");
    if (i >= in.lanes) internalError(s, "vector index"); set(s, in.dst, get(s, in.a, i)); s.frames.back().pc++; break;
  }
  case I_INSERTELT: {
    uint64_t i = concretize(s, get(s, in.c), in.sw, "vector index");
    for (unsigned k = 0; k < in.lanes; k++) set(s, in.dst + k, k == i ? get(s, in.b) : get(s, in.a, k)); s.frames.back().pc++; break;
  }
  case I_SHUFFLE: {
    ShufInfo &si = shufs[in.x]; std::vector<Val> t;
    for (int m : si.mask) t.push_back(m < 0 ? Val{0, nullptr} : m < si.na ? get(s, in.a, m) : get(s, in.b, m - si.na));
    for (unsigned k = 0; k < t.size(); k++) set(s, in.dst + k, t[k]); f.pc++; break;
  }
  case I_AGG: {
    AggInfo &ai = aggs[in.x]; Val t[64]; std::vector<Val> tv; Val *p = t; if (in.lanes > 64) { tv.resize(in.lanes); p = tv.data(); }
    for (unsigned k = 0; k < in.lanes; k++) p[k] = get(s, ai.srcs[k]);
    for (unsigned k = 0; k < in.lanes; k++) set(s, in.dst + k, p[k]); f.pc++; break;
  }
  case I_RMW: {
    uint64_t a = concretize(s, get(s, in.a), 64, "address"); schedPoint(s, {a, nullptr}); Val old = load(s, {a, nullptr}, in.w); Val b = get(s, in.b); Expr *x = E(old, in.w), *y = E(b, in.w), *r;
    switch (in.sub) {
    case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = cx.mk(ADD, in.w, x, y); break; case AtomicRMWInst::Sub: r = cx.mk(SUB, in.w, x, y); break;
    case AtomicRMWInst::And: r = cx.mk(AND, in.w, x, y); break; case AtomicRMWInst::Or: r = cx.mk(OR, in.w, x, y); break; case AtomicRMWInst::Xor: r = cx.mk(XOR, in.w, x, y); break;
    default: internalError(s, "atomicrmw");
    }
    store(s, {a, nullptr}, fromE(r), in.w); set(s, in.dst, old); s.skip = false; s.frames.back().pc++; break;
  }
  case I_CMPXCHG: {
    uint64_t a = concretize(s, get(s, in.a), 64, "address"); schedPoint(s, {a, nullptr}); Val old = load(s, {a, nullptr}, in.w);
    bool e = branch(s, cx.eq(E(old, in.w), E(get(s, in.b), in.w)));
    if (e) store(s, {a, nullptr}, get(s, in.c), in.w);
    set(s, in.dst, old); set(s, in.dst + 1, {e, nullptr}); s.skip = false; s.frames.back().pc++; break;
  }
  case I_NOP: f.pc++; break;
  case I_UNSUPPORTED: { std::string t; raw_string_ostream os(t); in.I->print(os); internalError(s, "unsupported instruction " + os.str()); }
  default: internalError(s, "bad opcode");
  }
}

void Engine::finish(State &s) {
  paths++;
  for (auto &c : s.covers) { covers.insert(c); coverCount[c]++; }
  // reservoir sample of witnesses
  Witness w; bool take = false; size_t pos = 0;
  if (witnesses.size() < nWitness) { take = true; pos = witnesses.size(); witnesses.emplace_back(); }
  else { uint64_t r = rng() % paths; if (r < nWitness) { take = true; pos = r; } }
  if (take) {
    Evaluator e2;
    Model m(*s.model); // inputs no constraint mentions get arbitrary values
    std::vector<char> con(cx.varNames.size(), 0);
    for (auto *c : s.path) for (auto v : *c->vars) con[v] = 1;
    m.v.resize(con.size(), 0);
    for (size_t v = 0; v < con.size(); v++) if (!con[v]) { uint64_t r = rng(); if (rng() % 3 == 0) r = (int64_t)r >> (rng() % 64); m.v[v] = r & maskw(cx.varW[v]); }
    for (auto &i : s.inputs) w.inputs.push_back({i.name, i.e ? e2.eval(i.e, m) : i.c});
    for (auto &o : s.outs) w.outs.push_back({o.tag, o.v.e ? e2.eval(o.v.e, m) : o.v.c});
    witnesses[pos] = w;
  }
}

static unsigned long rssMB() {
  FILE *f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4 / 1024;
}

void Engine::explore(State *init) {
  work.push_back(init);
  uint64_t n = 0;
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    run(s);
    delete s;
    if (viols.size() >= maxViol) { if (!work.empty()) incomplete.insert("stopped after violations"); break; }
    if (paths + killed >= maxPaths) { if (!work.empty()) incomplete.insert("path limit"); break; }
    if (deadline && nowS() > deadline) { if (!work.empty()) incomplete.insert("time limit"); break; }
    if ((++n & 63) == 0 && rssMB() > memLimitMB) { incomplete.insert("memory limit"); break; }
  }
}
} // namespace sx
