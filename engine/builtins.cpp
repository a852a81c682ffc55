#include "engine.h"
#include <llvm/IR/Intrinsics.h>
namespace sx {
#define BI(n) BR Engine::n(State &s, Inst &in, CallInfo &ci, Val &ret)

BI(bi_nop) { ret = {0, nullptr}; return BR::Done; }
BI(bi_zero) { ret = {0, nullptr}; return BR::Done; }
BI(bi_one) { ret = {1, nullptr}; return BR::Done; }

static const uint64_t kMaxAlloc = 1ull << 26;
BI(bi_new) { // sym_heap_alloc / malloc: returns null when the request cannot be satisfied
  Val n = arg(s, ci, 0);
  if (n.e && branch(s, cx.mk(ULT, 1, cx.cst(1u << 16, 64), n.e))) { ret = {0, nullptr}; return BR::Done; }
  uint64_t sz = concretize(s, n, 64, "allocation size");
  if (sz > kMaxAlloc) { ret = {0, nullptr}; return BR::Done; }
  if (s.failAlloc && --s.failAlloc == 0) { ret = {0, nullptr}; return BR::Done; }
  ret = {heapAlloc(s, sz), nullptr}; return BR::Done;
}
BI(bi_delete) { uint64_t a = argC(s, ci, 0); heapFree(s, a, "free"); return BR::Done; }
BI(bi_calloc) { uint64_t n = argC(s, ci, 0) * argC(s, ci, 1); if (n > kMaxAlloc) { ret = {0, nullptr}; return BR::Done; } ret = {heapAlloc(s, n, OK_HEAP, 0), nullptr}; return BR::Done; }
BI(bi_realloc) { internalError(s, "realloc"); }
BI(bi_memcpy) {
  uint64_t d = argC(s, ci, 0), a = argC(s, ci, 1), n = argC(s, ci, 2);
  ret = {d, nullptr};
  if (!n) return BR::Done;
  checkAccess(s, a, n, false, "read (block copy)"); checkAccess(s, d, n, true, "write (block copy)");
  Obj *o = s.get(a >> 32); uint32_t ao = a, doff = d;
  std::vector<SymB> sy; bool any = false;
  if (o->nsym) { for (uint64_t i = 0; i < n; i++) if (o->sym[ao + i].e) { any = true; break; } if (any) sy.assign(o->sym + ao, o->sym + ao + n); }
  std::vector<uint8_t> tmp(o->data + ao, o->data + ao + n);
  Obj *w = s.wr(d >> 32);
  memcpy(w->data + doff, tmp.data(), n);
  if (w->nsym) for (uint64_t i = 0; i < n; i++) if (w->sym[doff + i].e) { w->sym[doff + i].e = nullptr; w->nsym--; }
  if (any) {
    if (!w->sym) w->sym = (SymB *)calloc(w->size + 1, sizeof(SymB)); else if (!w->nsym) memset(w->sym, 0, sizeof(SymB) * (w->size + 1));
    for (uint64_t i = 0; i < n; i++) if (sy[i].e) { w->sym[doff + i] = sy[i]; w->nsym++; }
  }
  return BR::Done;
}
BI(bi_memset) {
  uint64_t d = argC(s, ci, 0); Val v = arg(s, ci, 1); uint64_t n = argC(s, ci, 2); ret = {d, nullptr};
  if (!n) return BR::Done;
  checkAccess(s, d, n, true, "write (block fill)");
  Obj *w = s.wr(d >> 32); uint32_t o = d;
  if (v.e) { Val b = fromE(cx.extract(v.e, 0, 8)); for (uint64_t i = 0; i < n; i++) storeBytes(s, w, o + i, b, 8); }
  else { memset(w->data + o, (int)(v.c & 255), n); if (w->nsym) for (uint64_t i = 0; i < n; i++) if (w->sym[o + i].e) { w->sym[o + i].e = nullptr; w->nsym--; } }
  return BR::Done;
}
BI(bi_memcmp) {
  uint64_t a = argC(s, ci, 0), b = argC(s, ci, 1), n = argC(s, ci, 2);
  if (!n) { ret = {0, nullptr}; return BR::Done; }
  Obj *x = checkAccess(s, a, n, false, "read (compare)"), *y = checkAccess(s, b, n, false, "read (compare)");
  Expr *r = cx.cst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    Expr *p = byteE(x, (uint32_t)a + i), *q = byteE(y, (uint32_t)b + i);
    Expr *e = cx.eq(p, q);
    r = cx.ite(e, r, cx.ite(cx.mk(ULT, 1, p, q), cx.cst(~0ull, 32), cx.cst(1, 32)));
  }
  ret = fromE(r); return BR::Done;
}
BI(bi_bcmp) {
  uint64_t a = argC(s, ci, 0), b = argC(s, ci, 1), n = argC(s, ci, 2);
  if (!n) { ret = {0, nullptr}; return BR::Done; }
  Obj *x = checkAccess(s, a, n, false, "read (compare)"), *y = checkAccess(s, b, n, false, "read (compare)");
  Expr *e = cx.T();
  for (uint64_t i = 0; i < n; i++) e = cx.andb(e, cx.eq(byteE(x, (uint32_t)a + i), byteE(y, (uint32_t)b + i)));
  ret = fromE(cx.zext(cx.not1(e), 32)); return BR::Done;
}
BI(bi_memchr) {
  uint64_t a = argC(s, ci, 0); Val v = arg(s, ci, 1); uint64_t n = argC(s, ci, 2); Expr *c = cx.extract(E(v, 32), 0, 8);
  for (uint64_t i = 0; i < n; i++) {
    Obj *x = checkAccess(s, a + i, 1, false, "read (search)");
    if (branch(s, cx.eq(byteE(x, (uint32_t)(a + i)), c))) { ret = {a + i, nullptr}; return BR::Done; }
  }
  ret = {0, nullptr}; return BR::Done;
}
BI(bi_strlen) {
  uint64_t a = argC(s, ci, 0);
  for (uint64_t i = 0;; i++) { Obj *x = checkAccess(s, a + i, 1, false, "read (strlen)"); if (branch(s, cx.eq(byteE(x, (uint32_t)(a + i)), cx.cst(0, 8)))) { ret = {i, nullptr}; return BR::Done; } }
}
BI(bi_strcmp) {
  uint64_t a = argC(s, ci, 0), b = argC(s, ci, 1);
  for (uint64_t i = 0;; i++) {
    Obj *x = checkAccess(s, a + i, 1, false, "read (strcmp)"), *y = checkAccess(s, b + i, 1, false, "read (strcmp)");
    Expr *p = byteE(x, (uint32_t)(a + i)), *q = byteE(y, (uint32_t)(b + i));
    if (!branch(s, cx.eq(p, q))) { ret = fromE(cx.ite(cx.mk(ULT, 1, p, q), cx.cst(~0ull, 32), cx.cst(1, 32))); return BR::Done; }
    if (branch(s, cx.eq(p, cx.cst(0, 8)))) { ret = {0, nullptr}; return BR::Done; }
  }
}
BI(bi_guard_acquire) { uint64_t g = argC(s, ci, 0); Val v = load(s, {g, nullptr}, 8); ret = {v.c ? 0u : 1u, nullptr}; return BR::Done; }
BI(bi_guard_release) { uint64_t g = argC(s, ci, 0); store(s, {g, nullptr}, {1, nullptr}, 8); return BR::Done; }
BI(bi_abort) { violation(s, "abort", "abort called"); }
BI(bi_exit) { violation(s, "abort", "process exit called"); }
BI(bi_assert_fail) { violation(s, "assert", "assertion failed in the code under test: " + cstr(s, argC(s, ci, 0)) ); }
BI(bi_terminate) { violation(s, "terminate", "std::terminate called"); }
BI(bi_pure) { violation(s, "pure", "pure virtual call"); }
BI(bi_unexpected) { violation(s, "terminate", "unexpected exception"); }

BI(bi_cxa_alloc) {
  uint64_t n = argC(s, ci, 0); uint64_t a = heapAlloc(s, n, OK_EXN, 0);
  s.exns.push_back({a, 0, 0, 0, 0, a, 0, false}); ret = {a, nullptr}; return BR::Done;
}
BI(bi_cxa_free) {
  uint64_t a = argC(s, ci, 0);
  for (size_t i = 0; i < s.exns.size(); i++) if (s.exns[i].addr == a) { s.exns.erase(s.exns.begin() + i); break; }
  s.kill(a >> 32); return BR::Done;
}
BI(bi_cxa_throw) {
  uint64_t a = argC(s, ci, 0); ExnRec *r = exn(s, a);
  if (!r) internalError(s, "throw of unknown object");
  r->tinfo = argC(s, ci, 1); r->dtor = argC(s, ci, 2); r->refcnt = 1; s.uncaught++;
  unwind(s, a); return BR::Jumped;
}
BI(bi_cxa_initprimary) {
  uint64_t a = argC(s, ci, 0); ExnRec *r = exn(s, a); if (!r) internalError(s, "init of unknown exception");
  r->tinfo = argC(s, ci, 1); r->dtor = argC(s, ci, 2); r->refcnt = 0; ret = {a, nullptr}; return BR::Done;
}
BI(bi_cxa_begin) {
  uint64_t a = argC(s, ci, 0); ExnRec *r = exn(s, a); if (!r) internalError(s, "begin_catch of unknown exception");
  if (r->handlers < 0) r->handlers = -r->handlers; 
  r->handlers++;
  if (s.caught.empty() || s.caught.back() != a) s.caught.push_back(a);
  s.uncaught--; ret = {r->adjusted, nullptr}; return BR::Done;
}
BI(bi_cxa_end) {
  if (s.caught.empty()) return BR::Done;
  uint64_t a = s.caught.back(); ExnRec *r = exn(s, a); if (!r) internalError(s, "end_catch of unknown exception");
  if (r->handlers < 0) { r->handlers++; if (r->handlers == 0) s.caught.pop_back(); return BR::Done; }
  if (--r->handlers == 0) {
    s.caught.pop_back(); size_t d = s.frames.size(); exnRelease(s, a);
    if (s.frames.size() != d) return BR::Pushed;
  }
  return BR::Done;
}
BI(bi_cxa_rethrow) {
  if (s.caught.empty()) violation(s, "terminate", "rethrow without a current exception");
  uint64_t a = s.caught.back(); ExnRec *r = exn(s, a); r->handlers = -r->handlers; s.uncaught++;
  unwind(s, a); return BR::Jumped;
}
BI(bi_cxa_getptr) { uint64_t a = argC(s, ci, 0); ExnRec *r = exn(s, a); ret = {r ? r->adjusted : a, nullptr}; return BR::Done; }
BI(bi_curexc) {
  uint64_t out = argC(s, ci, 0), a = 0;
  if (!s.caught.empty()) { a = primaryOf(s, s.caught.back()); exn(s, a)->refcnt++; }
  store(s, {out, nullptr}, {a, nullptr}, 64); return BR::Done;
}
BI(bi_rethrowexc) {
  uint64_t p = argC(s, ci, 0); uint64_t a = load(s, {p, nullptr}, 64).c;
  if (!a) violation(s, "terminate", "rethrow_exception of a null exception_ptr");
  ExnRec *r = exn(s, a); if (!r) violation(s, "memory", "rethrow of a destroyed exception");
  r->refcnt++; ExnRec d = *r; d.addr = heapAlloc(s, 8, OK_EXN, 0); d.refcnt = 1; d.handlers = 0; d.primary = a; d.dtor = 0;
  s.exns.push_back(d); s.uncaught++;
  unwind(s, d.addr); return BR::Jumped;
}
BI(bi_eptr_ctor) { uint64_t t = argC(s, ci, 0), a = argC(s, ci, 1); store(s, {t, nullptr}, {a, nullptr}, 64); if (a) { ExnRec *r = exn(s, a); if (!r) internalError(s, "exception_ptr"); r->refcnt++; } return BR::Done; }
BI(bi_eptr_addref) { uint64_t t = argC(s, ci, 0), a = load(s, {t, nullptr}, 64).c; if (a) { ExnRec *r = exn(s, a); if (!r) violation(s, "memory", "reference to a destroyed exception"); r->refcnt++; } return BR::Done; }
BI(bi_eptr_release) {
  uint64_t t = argC(s, ci, 0), a = load(s, {t, nullptr}, 64).c;
  if (a) { store(s, {t, nullptr}, {0, nullptr}, 64); size_t d = s.frames.size(); exnRelease(s, a); if (s.frames.size() != d) return BR::Pushed; }
  return BR::Done;
}
BI(bi_uncaught) { ret = {s.uncaught > 0, nullptr}; return BR::Done; }
BI(bi_uncaughts) { ret = {(uint64_t)s.uncaught, nullptr}; return BR::Done; }

// ---------------------------------------------------------------- harness API
BI(bi_sym_make) {
  std::string n = cstr(s, argC(s, ci, 0)); unsigned w = argC(s, ci, 1);
  std::string key = std::to_string(s.inputs.size()) + ":" + n + ":" + std::to_string(w);
  Expr *v = cx.var(key, n, w);
  s.inputs.push_back({n, v, 0, w});
  ret = fromE(cx.zext(v, 64)); return BR::Done;
}
static Expr *truth(Engine &e, Val v, unsigned w) { return e.cx.not1(e.cx.eq(e.E(v, w), e.cx.cst(0, w))); }
BI(bi_sym_assume) {
  Expr *c = truth(*this, arg(s, ci, 0), ci.args[0].w);
  if (c->op == CONST) { if (!c->val) { assumeKills++; throw PathEnd(); } return BR::Done; }
  std::shared_ptr<Model> m;
  if (ev.eval(c, *s.model)) { addC(s, c); return BR::Done; }
  Res r = feasible(s, c, &m);
  if (r == UNSAT) { assumeKills++; throw PathEnd(); }
  if (r == UNKNOWN && verbose) { Evaluator e2; for (auto &i : s.inputs) fprintf(stderr, " %s=%llu", i.name.c_str(), (unsigned long long)(i.e ? e2.eval(i.e, *s.model) : i.c)); fprintf(stderr, " : unknown\n   %s\n", show(c, 12).c_str()); if (c->op == EQ) fprintf(stderr, "  %s\n", diff(c->a, c->b).c_str()); }
  if (r == UNKNOWN) { incomplete.insert("solver timeout on an assumption @ " + where(s, 2)); throw PathEnd(); }
  addC(s, c); s.model = m; return BR::Done;
}
// a hint: if it holds on this path, the solver may use it from here on
BI(bi_sym_lemma) {
  Expr *c = truth(*this, arg(s, ci, 0), ci.args[0].w);
  if (c->op == CONST) return BR::Done;
  std::shared_ptr<Model> m;
  if (feasible(s, cx.not1(c), &m) == UNSAT) s.path.push_back(c);
  return BR::Done;
}
BI(bi_sym_opaque) { Val v = arg(s, ci, 0); if (v.e && v.e->op != VAR) sol->opaque.insert(v.e); return BR::Done; }
BI(bi_sym_assert) {
  Expr *c = truth(*this, arg(s, ci, 0), ci.args[0].w);
  asserts++;
  if (c->op == CONST) { if (!c->val) violation(s, "property", cstr(s, argC(s, ci, 1))); return BR::Done; }
  symAsserts++;
  std::shared_ptr<Model> m; Expr *nc = cx.not1(c);
  Res r = feasible(s, nc, &m);
  if (r == SAT) {
    record(s, "property", cstr(s, argC(s, ci, 1)), *m);
    if (ev.eval(c, *s.model)) { addC(s, c); return BR::Done; }
    std::shared_ptr<Model> m2; if (feasible(s, c, &m2) != SAT) throw PathEnd();
    addC(s, c); s.model = m2; return BR::Done;
  }
  if (r == UNKNOWN && verbose) { Evaluator e2; for (auto &i : s.inputs) fprintf(stderr, " %s=%llu", i.name.c_str(), (unsigned long long)(i.e ? e2.eval(i.e, *s.model) : i.c)); fprintf(stderr, " : unknown\n   %s\n", show(c, 12).c_str()); if (c->op == EQ) fprintf(stderr, "  %s\n", diff(c->a, c->b).c_str()); }
  if (r == UNSAT) s.facts.push_back(c);
  if (r == UNKNOWN) { incomplete.insert("solver timeout on assertion: " + cstr(s, argC(s, ci, 1))); }
  return BR::Done;
}
BI(bi_sym_out) { s.outs.push_back({cstr(s, argC(s, ci, 0)), arg(s, ci, 1)}); return BR::Done; }
BI(bi_sym_cover) { s.covers.insert(cstr(s, argC(s, ci, 0))); return BR::Done; }
BI(bi_sym_param) {
  std::string n = cstr(s, argC(s, ci, 0)); int64_t d = (int64_t)argC(s, ci, 1); auto it = params.find(n); int64_t v = it == params.end() ? d : it->second; usedParams[n] = v;
  ret = {(uint64_t)v, nullptr}; return BR::Done;
}
BI(bi_sym_live) { ret = {(uint64_t)s.liveHeap, nullptr}; return BR::Done; }
BI(bi_sym_allocs) { ret = {s.heapAllocs, nullptr}; return BR::Done; }
BI(bi_sym_conc) { ret = {argC(s, ci, 0), nullptr}; return BR::Done; }
BI(bi_sym_issym) { ret = {arg(s, ci, 0).e ? 1u : 0u, nullptr}; return BR::Done; }
BI(bi_sym_spawn) { // a new thread that runs fn(arg) once the main one joins
  uint64_t fn = argC(s, ci, 0), a = argC(s, ci, 1);
  auto it = funcByObj.find(fn >> 32);
  if (s.cur != 0 || it == funcByObj.end()) internalError(s, "spawn");
  FuncInfo *fi = info(it->second);
  if (s.thr.empty()) s.thr.emplace_back();
  std::vector<Val> r; std::vector<Frame> f; r.swap(s.regs); f.swap(s.frames);
  pushFrame(s, fi, nullptr); set(s, fi->argSlots[0], {a, nullptr});
  s.thr.emplace_back(); s.thr.back().regs.swap(s.regs); s.thr.back().frames.swap(s.frames);
  r.swap(s.regs); f.swap(s.frames);
  return BR::Done;
}
BI(bi_sym_join) { // runs all threads to their end, in every order with up to `switches` preemptions
  if (s.cur != 0) internalError(s, "join");
  if (s.thr.size() <= 1) { s.thr.clear(); return BR::Done; }
  int64_t sw = argC(s, ci, 0);
  afterCall(s, in, ci);
  s.preLeft = sw; s.sharedLimit = s.nobj; s.events = 0;
  for (int u = 2; u < (int)s.thr.size(); u++) { State *t = fork(s); t->inputs.push_back({"@next", nullptr, (uint64_t)u, 64}); switchTo(*t, u); work.push_back(t); }
  s.inputs.push_back({"@next", nullptr, 1, 64});
  switchTo(s, 1);
  return BR::Jumped;
}
BI(bi_sym_fail_alloc) { s.failAlloc = argC(s, ci, 0); return BR::Done; }
BI(bi_sym_note) { if (verbose) fprintf(stderr, "[note] %s\n", cstr(s, argC(s, ci, 0)).c_str()); return BR::Done; }
BI(bi_sym_ite) { Expr *c = truth(*this, arg(s, ci, 0), ci.args[0].w); ret = fromE(cx.ite(c, E(arg(s, ci, 1), 64), E(arg(s, ci, 2), 64))); return BR::Done; }
BI(bi_demangle) { uint64_t st = argC(s, ci, 3); if (st) store(s, {st, nullptr}, {(uint64_t)(uint32_t)-2, nullptr}, 32); ret = {0, nullptr}; return BR::Done; }
BI(bi_nothrow_new) { return bi_new(s, in, ci, ret); }
BI(bi_fround) {
  const std::string &n = ci.name; unsigned w = ci.args[0].w; Op o = n.find("floor") != std::string::npos ? FRNDDN : n.find("ceil") != std::string::npos ? FRNDUP : n.find("trunc") != std::string::npos ? FRNDTZ : n.find("round") != std::string::npos ? FRNDNA : FRNDNE;
  ret = fromE(cx.mk(o, w, E(arg(s, ci, 0), w))); return BR::Done;
}
BI(bi_fabs) { unsigned w = ci.args[0].w; ret = fromE(cx.andb(E(arg(s, ci, 0), w), cx.cst(maskw(w - 1), w))); return BR::Done; }
BI(bi_fmath) { // concrete only
  const std::string &n = ci.name; double a = asD(argC(s, ci, 0)), b = ci.args.size() > 1 ? (ci.args[1].w == 32 ? (double)(int)argC(s, ci, 1) : asD(argC(s, ci, 1))) : 0; double r = 0;
  if (n == "pow") r = pow(a, b); else if (n == "exp") r = exp(a); else if (n == "log") r = log(a); else if (n == "ldexp") r = ldexp(a, (int)b); else if (n == "sqrt") r = sqrt(a); else if (n == "log2") r = log2(a); else if (n == "log10") r = log10(a); else if (n == "exp2") r = exp2(a); else if (n == "fmod") r = fmod(a, b); else if (n == "cbrt") r = cbrt(a);
  else if (n == "sin") r = sin(a); else if (n == "cos") r = cos(a); else if (n == "tan") r = tan(a); else if (n == "atan") r = atan(a); else if (n == "hypot") r = hypot(a, b); else internalError(s, "math " + n);
  ret = {bitsD(r), nullptr}; return BR::Done;
}
// the arguments are made concrete
BI(bi_snprintf) {
  bool n_ = ci.name == "snprintf"; unsigned k = n_ ? 2 : 1; uint64_t buf = argC(s, ci, 0), cap = n_ ? argC(s, ci, 1) : 1u << 20;
  auto text = [&](uint64_t a) { std::string t; for (;; a++) { Obj *x = checkAccess(s, a, 1, false, "read (format)"); char c = (char)concretize(s, fromE(byteE(x, (uint32_t)a)), 8, "format"); if (!c) return t; t += c; } };
  std::string f = text(argC(s, ci, k++)), o;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { o += f[i]; continue; }
    std::string sp = "%"; i++;
    while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') { sp += std::to_string((int)argC(s, ci, k++)); } else sp += f[i]; i++; }
    while (i < f.size() && strchr("hljztL", f[i])) i++;
    if (i >= f.size()) break;
    char t[512], c = f[i];
    if (c == '%') { o += '%'; continue; }
    uint64_t v = argC(s, ci, k); unsigned w = ci.args[k].w; k++;
    if (c == 's') { std::string z = text(v); snprintf(t, sizeof t, (sp + "s").c_str(), z.c_str()); }
    else if (c == 'd' || c == 'i') snprintf(t, sizeof t, (sp + "lld").c_str(), w == 32 ? (long long)(int32_t)v : (long long)v);
    else if (strchr("uxXo", c)) { bool hh = i >= 2 && f[i - 1] == 'h' && f[i - 2] == 'h'; snprintf(t, sizeof t, (sp + "ll" + c).c_str(), (unsigned long long)(hh ? v & 0xff : v)); }
    else if (c == 'c') snprintf(t, sizeof t, (sp + "c").c_str(), (int)v);
    else if (c == 'p') snprintf(t, sizeof t, (sp + "p").c_str(), (void *)v);
    else if (strchr("fFeEgG", c)) snprintf(t, sizeof t, (sp + c).c_str(), asD(v));
    else internalError(s, std::string("format ") + c);
    o += t;
  }
  for (uint64_t i = 0; i < o.size() + 1 && i < cap; i++) store(s, {buf + i, nullptr}, {i < o.size() && i + 1 < cap ? (uint64_t)(unsigned char)o[i] : 0, nullptr}, 8);
  ret = {o.size(), nullptr}; return BR::Done;
}
BI(bi_tolower) { internalError(s, "tolower"); }
BI(bi_callmain) { internalError(s, "main"); }
BI(bi_dyncast) {
  uint64_t p = argC(s, ci, 0), dst = argC(s, ci, 2);
  uint64_t vt = load(s, {p, nullptr}, 64).c; uint64_t top = load(s, {vt - 16, nullptr}, 64).c, ti = load(s, {vt - 8, nullptr}, 64).c;
  uint64_t full = p + top, adj = full;
  ret = {typeMatches(s, ti, dst, adj) ? adj : 0, nullptr}; return BR::Done;
}

Builtin Engine::findBuiltin(const std::string &n) { auto it = builtins.find(n); return it == builtins.end() ? nullptr : it->second; }
void Engine::initBuiltins() {
  auto &b = builtins;
  b["sym_heap_alloc"] = b["malloc"] = &Engine::bi_new; b["sym_heap_free"] = b["free"] = &Engine::bi_delete; b["calloc"] = &Engine::bi_calloc; b["realloc"] = &Engine::bi_realloc;
  b["memcpy"] = b["memmove"] = &Engine::bi_memcpy; b["memset"] = &Engine::bi_memset; b["memcmp"] = &Engine::bi_memcmp; b["bcmp"] = &Engine::bi_bcmp; b["memchr"] = &Engine::bi_memchr;
  b["strlen"] = &Engine::bi_strlen; b["strcmp"] = &Engine::bi_strcmp;
  b["__cxa_guard_acquire"] = &Engine::bi_guard_acquire; b["__cxa_guard_release"] = &Engine::bi_guard_release; b["__cxa_guard_abort"] = &Engine::bi_nop;
  b["__cxa_atexit"] = b["__cxa_thread_atexit"] = &Engine::bi_zero;
  b["abort"] = &Engine::bi_abort; b["exit"] = b["_exit"] = &Engine::bi_exit; b["__assert_fail"] = &Engine::bi_assert_fail; b["_ZSt9terminatev"] = b["_ZSt10unexpectedv"] = &Engine::bi_terminate;
  b["__cxa_pure_virtual"] = b["__cxa_deleted_virtual"] = &Engine::bi_pure; b["__cxa_call_unexpected"] = &Engine::bi_unexpected;
  b["__cxa_allocate_exception"] = &Engine::bi_cxa_alloc; b["__cxa_free_exception"] = &Engine::bi_cxa_free; b["__cxa_throw"] = &Engine::bi_cxa_throw; b["__cxa_init_primary_exception"] = &Engine::bi_cxa_initprimary;
  b["__cxa_begin_catch"] = &Engine::bi_cxa_begin; b["__cxa_end_catch"] = &Engine::bi_cxa_end; b["__cxa_rethrow"] = &Engine::bi_cxa_rethrow; b["__cxa_get_exception_ptr"] = &Engine::bi_cxa_getptr;
  b["_ZSt17current_exceptionv"] = &Engine::bi_curexc; b["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = &Engine::bi_rethrowexc;
  b["_ZNSt15__exception_ptr13exception_ptrC1EPv"] = b["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = &Engine::bi_eptr_ctor;
  b["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = &Engine::bi_eptr_addref; b["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = &Engine::bi_eptr_release;
  b["_ZSt18uncaught_exceptionv"] = &Engine::bi_uncaught; b["_ZSt19uncaught_exceptionsv"] = &Engine::bi_uncaughts;
  b["sym_spawn"] = &Engine::bi_sym_spawn; b["sym_join"] = &Engine::bi_sym_join;
  b["sym_make"] = &Engine::bi_sym_make; b["sym_assume_"] = &Engine::bi_sym_assume; b["sym_assert_"] = &Engine::bi_sym_assert; b["sym_opaque"] = &Engine::bi_sym_opaque; b["sym_lemma_"] = &Engine::bi_sym_lemma; b["sym_out"] = &Engine::bi_sym_out; b["sym_cover"] = &Engine::bi_sym_cover;
  b["sym_param"] = &Engine::bi_sym_param; b["sym_live"] = &Engine::bi_sym_live; b["sym_conc"] = &Engine::bi_sym_conc; b["sym_issym"] = &Engine::bi_sym_issym; b["sym_fail_alloc"] = &Engine::bi_sym_fail_alloc; b["sym_allocs"] = &Engine::bi_sym_allocs;
  b["sym_note"] = &Engine::bi_sym_note; b["sym_ite_"] = &Engine::bi_sym_ite;
  b["__cxa_demangle"] = &Engine::bi_demangle;
  for (auto n : {"floor", "ceil", "trunc", "round", "nearbyint", "rint", "floorf", "ceilf", "truncf", "roundf"}) b[n] = &Engine::bi_fround;
  b["fabs"] = b["fabsf"] = &Engine::bi_fabs;
  b["snprintf"] = b["sprintf"] = &Engine::bi_snprintf;
  for (auto n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy"}) b[n] = &Engine::bi_zero;
  for (auto n : {"pow", "exp", "log", "ldexp", "log2", "log10", "exp2", "fmod", "cbrt", "sqrt", "sin", "cos", "tan", "atan", "hypot"}) b[n] = &Engine::bi_fmath;
  b["__dynamic_cast"] = &Engine::bi_dyncast;
}

BR Engine::intrinsic(State &s, Inst &in, CallInfo &ci, Val &ret) {
  unsigned w = ci.retN ? ci.retW[0] : 0;
  auto A = [&](unsigned i) { return E(arg(s, ci, i), ci.args[i].w); };
  if (ci.intr != Intrinsic::memcpy && ci.retN > 1 && in.I && in.I->getType()->isVectorTy()) {
    // element-wise min/max/abs etc. on vectors
    switch (ci.intr) {
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
      for (int k = 0; k < ci.retN; k++) {
        Expr *x = E(get(s, ci.args[0].op, k), w), *y = E(get(s, ci.args[1].op, k), w);
        Op o = (ci.intr == Intrinsic::umin || ci.intr == Intrinsic::umax) ? ULT : SLT; bool mn = ci.intr == Intrinsic::umin || ci.intr == Intrinsic::smin;
        set(s, in.dst + k, fromE(cx.ite(cx.mk(o, 1, x, y), mn ? x : y, mn ? y : x)));
      }
      return BR::Done;
    default: internalError(s, "vector intrinsic " + ci.name);
    }
  }
  switch (ci.intr) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore:
    return BR::Done;
  case Intrinsic::stacksave: ret = {0, nullptr}; return BR::Done;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return bi_memcpy(s, in, ci, ret);
  case Intrinsic::memset: case Intrinsic::memset_inline: return bi_memset(s, in, ci, ret);
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
    ret = arg(s, ci, 0); return BR::Done;
  case Intrinsic::is_constant: ret = {0, nullptr}; return BR::Done;
  case Intrinsic::objectsize: ret = {maskw(w), nullptr}; return BR::Done;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "trap", "trap reached");
  case Intrinsic::eh_typeid_for: ret = {argC(s, ci, 0) >> 32, nullptr}; return BR::Done;
  case Intrinsic::umin: { Expr *x = A(0), *y = A(1); ret = fromE(cx.ite(cx.mk(ULT, 1, x, y), x, y)); return BR::Done; }
  case Intrinsic::umax: { Expr *x = A(0), *y = A(1); ret = fromE(cx.ite(cx.mk(ULT, 1, x, y), y, x)); return BR::Done; }
  case Intrinsic::smin: { Expr *x = A(0), *y = A(1); ret = fromE(cx.ite(cx.mk(SLT, 1, x, y), x, y)); return BR::Done; }
  case Intrinsic::smax: { Expr *x = A(0), *y = A(1); ret = fromE(cx.ite(cx.mk(SLT, 1, x, y), y, x)); return BR::Done; }
  case Intrinsic::abs: { Expr *x = A(0); ret = fromE(cx.ite(cx.mk(SLT, 1, x, cx.cst(0, w)), cx.mk(SUB, w, cx.cst(0, w), x), x)); return BR::Done; }
  case Intrinsic::bswap: { Expr *x = A(0), *r = cx.extract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = cx.concat(r, cx.extract(x, 8 * i, 8)); ret = fromE(r); return BR::Done; }
  case Intrinsic::ctpop: { Expr *x = A(0), *r = cx.cst(0, w); for (unsigned i = 0; i < w; i++) r = cx.mk(ADD, w, r, cx.zext(cx.extract(x, i, 1), w)); ret = fromE(r); return BR::Done; }
  case Intrinsic::ctlz: { Expr *x = A(0), *r = cx.cst(w, w); for (unsigned i = 0; i < w; i++) r = cx.ite(cx.extract(x, i, 1), cx.cst(w - 1 - i, w), r); ret = fromE(r); return BR::Done; }
  case Intrinsic::cttz: { Expr *x = A(0), *r = cx.cst(w, w); for (unsigned i = w; i-- > 0;) r = cx.ite(cx.extract(x, i, 1), cx.cst(i, w), r); ret = fromE(r); return BR::Done; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Expr *x = A(0), *y = A(1), *z = A(2);
    if (z->op != CONST) {
      Expr *m = cx.mk(UREM, w, z, cx.cst(w, w)), *im = cx.mk(SUB, w, cx.cst(w, w), m), *zero = cx.eq(m, cx.cst(0, w));
      if (ci.intr == Intrinsic::fshl) ret = fromE(cx.ite(zero, x, cx.orb(cx.mk(SHL, w, x, m), cx.mk(LSHR, w, y, im))));
      else ret = fromE(cx.ite(zero, y, cx.orb(cx.mk(SHL, w, x, im), cx.mk(LSHR, w, y, m))));
      return BR::Done;
    }
    unsigned k = z->val % w;
    if (ci.intr == Intrinsic::fshl) { if (!k) ret = arg(s, ci, 0); else ret = fromE(cx.concat(cx.extract(x, 0, w - k), cx.extract(y, w - k, k))); }
    else { if (!k) ret = arg(s, ci, 1); else ret = fromE(cx.concat(cx.extract(x, 0, k), cx.extract(y, k, w - k))); }
    return BR::Done;
  }
  case Intrinsic::uadd_with_overflow: { Expr *x = A(0), *y = A(1), *r = cx.mk(ADD, w, x, y); set(s, in.dst, fromE(r)); set(s, in.dst + 1, fromE(cx.mk(ULT, 1, r, x))); return BR::Done; }
  case Intrinsic::usub_with_overflow: { Expr *x = A(0), *y = A(1); set(s, in.dst, fromE(cx.mk(SUB, w, x, y))); set(s, in.dst + 1, fromE(cx.mk(ULT, 1, x, y))); return BR::Done; }
  case Intrinsic::umul_with_overflow: { Expr *x = A(0), *y = A(1); if (x->op == CONST) std::swap(x, y); set(s, in.dst, fromE(cx.mk(MUL, w, x, y)));
    set(s, in.dst + 1, y->op == CONST && y->val ? fromE(cx.mk(ULT, 1, cx.cst(maskw(w) / y->val, w), x)) : fromE(cx.mk(UMULO, 1, x, y))); return BR::Done; }
  case Intrinsic::smul_with_overflow: { Expr *x = A(0), *y = A(1); set(s, in.dst, fromE(cx.mk(MUL, w, x, y))); set(s, in.dst + 1, fromE(cx.mk(SMULO, 1, x, y))); return BR::Done; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    Expr *x = A(0), *y = A(1); bool add = ci.intr == Intrinsic::sadd_with_overflow; Expr *r = cx.mk(add ? ADD : SUB, w, x, y);
    Expr *sx_ = cx.extract(x, w - 1, 1), *sy = cx.extract(y, w - 1, 1), *sr = cx.extract(r, w - 1, 1);
    Expr *ov = add ? cx.andb(cx.eq(sx_, sy), cx.not1(cx.eq(sx_, sr))) : cx.andb(cx.not1(cx.eq(sx_, sy)), cx.not1(cx.eq(sx_, sr)));
    set(s, in.dst, fromE(r)); set(s, in.dst + 1, fromE(ov)); return BR::Done;
  }
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
    bool add = ci.intr == Intrinsic::sadd_sat; Expr *x = A(0), *y = A(1), *r = cx.mk(add ? ADD : SUB, w, x, y), *sx_ = cx.extract(x, w - 1, 1), *sy = cx.extract(y, w - 1, 1), *sr = cx.extract(r, w - 1, 1);
    Expr *ov = add ? cx.andb(cx.eq(sx_, sy), cx.not1(cx.eq(sx_, sr))) : cx.andb(cx.not1(cx.eq(sx_, sy)), cx.not1(cx.eq(sx_, sr)));
    ret = fromE(cx.ite(ov, cx.ite(sx_, cx.cst(1ull << (w - 1), w), cx.cst(maskw(w - 1), w)), r)); return BR::Done;
  }
  case Intrinsic::bitreverse: { Expr *x = A(0), *r = cx.extract(x, w - 1, 1); for (unsigned i = 1; i < w; i++) r = cx.concat(cx.extract(x, w - 1 - i, 1), r); ret = fromE(r); return BR::Done; }
  case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp2: {
    double a = asD(argC(s, ci, 0)), y = ci.intr == Intrinsic::pow ? asD(argC(s, ci, 1)) : 0;
    if (w != 64) internalError(s, "intrinsic " + ci.name);
    double r = ci.intr == Intrinsic::pow ? pow(a, y) : ci.intr == Intrinsic::exp ? exp(a) : ci.intr == Intrinsic::log ? log(a) : ci.intr == Intrinsic::log2 ? log2(a) : ci.intr == Intrinsic::log10 ? log10(a) : exp2(a);
    ret = {bitsD(r), nullptr}; return BR::Done;
  }
  case Intrinsic::uadd_sat: { Expr *x = A(0), *y = A(1), *r = cx.mk(ADD, w, x, y); ret = fromE(cx.ite(cx.mk(ULT, 1, r, x), cx.cst(~0ull, w), r)); return BR::Done; }
  case Intrinsic::usub_sat: { Expr *x = A(0), *y = A(1); ret = fromE(cx.ite(cx.mk(ULT, 1, x, y), cx.cst(0, w), cx.mk(SUB, w, x, y))); return BR::Done; }
  case Intrinsic::fabs: ret = fromE(cx.andb(A(0), cx.cst(maskw(w - 1), w))); return BR::Done;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven: {
    Op o = ci.intr == Intrinsic::floor ? FRNDDN : ci.intr == Intrinsic::ceil ? FRNDUP : ci.intr == Intrinsic::trunc ? FRNDTZ : ci.intr == Intrinsic::round ? FRNDNA : FRNDNE;
    ret = fromE(cx.mk(o, w, A(0))); return BR::Done;
  }
  case Intrinsic::sqrt: ret = fromE(cx.mk(FSQRT, w, A(0))); return BR::Done;
  case Intrinsic::fmuladd: ret = fromE(cx.mk(FADD, w, cx.mk(FMUL, w, A(0), A(1)), A(2))); return BR::Done;
  case Intrinsic::fma: ret = fromE(cx.mk(FFMA, w, A(0), A(1), A(2))); return BR::Done;
  case Intrinsic::copysign: ret = fromE(cx.orb(cx.andb(A(0), cx.cst(maskw(w - 1), w)), cx.andb(A(1), cx.cst(1ull << (w - 1), w)))); return BR::Done;
  case Intrinsic::is_fpclass: {
    unsigned m = argC(s, ci, 1), fw = ci.args[0].w; Expr *x = A(0), *abs_ = cx.andb(x, cx.cst(maskw(fw - 1), fw)), *sg = cx.extract(x, fw - 1, 1), *inf = cx.cst(fw == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, fw);
    Expr *isnan = cx.mk(ULT, 1, inf, abs_), *isinf = cx.eq(abs_, inf), *isz = cx.eq(abs_, cx.cst(0, fw)); Expr *r = cx.F();
    uint64_t minN = fw == 64 ? 0x0010000000000000ull : 0x00800000ull; Expr *issub = cx.andb(cx.not1(isz), cx.mk(ULT, 1, abs_, cx.cst(minN, fw))), *isnorm = cx.andb(cx.mk(ULE, 1, cx.cst(minN, fw), abs_), cx.mk(ULT, 1, abs_, inf));
    Expr *ng = sg, *ps = cx.not1(sg);
    if (m & 3) r = cx.orb(r, isnan); if (m & 4) r = cx.orb(r, cx.andb(isinf, ng)); if (m & 8) r = cx.orb(r, cx.andb(isnorm, ng)); if (m & 16) r = cx.orb(r, cx.andb(issub, ng)); if (m & 32) r = cx.orb(r, cx.andb(isz, ng));
    if (m & 64) r = cx.orb(r, cx.andb(isz, ps)); if (m & 128) r = cx.orb(r, cx.andb(issub, ps)); if (m & 256) r = cx.orb(r, cx.andb(isnorm, ps)); if (m & 512) r = cx.orb(r, cx.andb(isinf, ps));
    ret = fromE(r); return BR::Done;
  }
  case Intrinsic::minnum: case Intrinsic::maxnum: {
    Expr *x = A(0), *y = A(1), *l = cx.mk(FOLT, 1, x, y); bool mn = ci.intr == Intrinsic::minnum; Expr *r = cx.ite(l, mn ? x : y, mn ? y : x);
    r = cx.ite(cx.mk(FUNO, 1, x, x), y, cx.ite(cx.mk(FUNO, 1, y, y), x, r)); ret = fromE(r); return BR::Done;
  }
  default: internalError(s, "intrinsic " + ci.name);
  }
}
} // namespace sx
