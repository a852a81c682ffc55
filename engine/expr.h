// Hash-consed bit-vector / floating point expressions with light simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>

namespace sx {

enum Op : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
  AND, OR, XOR, NOT, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, EXTRACT, CONCAT, ZEXT, SEXT,
  UMULO, SMULO,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FFMA,
  FOEQ, FOLT, FOLE, FUNO,
  FPEXT, FPTRUNC, FPTOSI, FPTOUI, SITOFP, UITOFP,
  FRNDNE, FRNDTZ, FRNDDN, FRNDUP, FRNDNA,
};

typedef std::vector<uint32_t> VarVec;

struct Expr {
  Op op;
  uint8_t w;       // result width in bits (1..64)
  uint16_t imm;    // EXTRACT low bit
  uint32_t id;
  uint64_t val;    // CONST value / VAR index
  Expr *a, *b, *c;
  uint64_t lo, hi; // unsigned range
  const VarVec *vars;
  uint32_t depth;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t bitsD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t bitsF(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

// Float to integer with x86 semantics for out of range values.
static inline uint64_t fpToSI(double d, unsigned w) {
  if (w <= 32) {
    int64_t r = (d > -2147483649.0 && d < 2147483648.0) ? (int64_t)(int32_t)d : (int64_t)INT32_MIN;
    return (uint64_t)r & maskw(w);
  }
  uint64_t r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (uint64_t)(int64_t)d : 0x8000000000000000ull;
  return r & maskw(w);
}
static inline uint64_t fpToUI(double d, unsigned w) {
  if (w < 32) return fpToSI(d, 32) & maskw(w);
  if (w == 32) {
    uint64_t r = (d > -9223372036854775808.0 && d < 9223372036854775808.0) ? (uint64_t)(int64_t)d : 0x8000000000000000ull;
    return r & maskw(w);
  }
  if (d >= 0 && d < 18446744073709551616.0) return (uint64_t)d & maskw(w);
  if (d < 0 && d > -9223372036854775808.0) return (uint64_t)(int64_t)d & maskw(w);
  return 0x8000000000000000ull & maskw(w);
}

// Concrete evaluation of one operation. wa = width of first operand.
static inline uint64_t evalOp(Op op, unsigned w, unsigned imm, unsigned wa, uint64_t a, uint64_t b, uint64_t c, unsigned wb) {
  uint64_t m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return (x < 0 ? 1 : m) & m;
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case SREM: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (!y) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case NOT: return ~a & m;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sextw(a, wa) < sextw(b, wa);
  case SLE: return sextw(a, wa) <= sextw(b, wa);
  case ITE: return a ? b : c;
  case EXTRACT: return (a >> imm) & m;
  case CONCAT: return ((a << wb) | b) & m;
  case ZEXT: return a;
  case SEXT: return (uint64_t)sextw(a, wa) & m;
  case UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return p > (unsigned __int128)maskw(wa); }
  case SMULO: {
    __int128 p = (__int128)sextw(a, wa) * sextw(b, wa);
    __int128 mx = ((__int128)1 << (wa - 1)) - 1, mn = -((__int128)1 << (wa - 1));
    return p > mx || p < mn;
  }
  case FADD: return w == 64 ? bitsD(asD(a) + asD(b)) : bitsF(asF(a) + asF(b));
  case FSUB: return w == 64 ? bitsD(asD(a) - asD(b)) : bitsF(asF(a) - asF(b));
  case FMUL: return w == 64 ? bitsD(asD(a) * asD(b)) : bitsF(asF(a) * asF(b));
  case FDIV: return w == 64 ? bitsD(asD(a) / asD(b)) : bitsF(asF(a) / asF(b));
  case FREM: return w == 64 ? bitsD(fmod(asD(a), asD(b))) : bitsF(fmodf(asF(a), asF(b)));
  case FSQRT: return w == 64 ? bitsD(sqrt(asD(a))) : bitsF(sqrtf(asF(a)));
  case FFMA: return w == 64 ? bitsD(fma(asD(a), asD(b), asD(c))) : bitsF(fmaf(asF(a), asF(b), asF(c)));
  case FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
  case FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
  case FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
  case FUNO: return wa == 64 ? (asD(a) != asD(a) || asD(b) != asD(b)) : (asF(a) != asF(a) || asF(b) != asF(b));
  case FPEXT: return bitsD((double)asF(a));
  case FPTRUNC: return bitsF((float)asD(a));
  case FPTOSI: return fpToSI(wa == 64 ? asD(a) : (double)asF(a), w);
  case FPTOUI: return fpToUI(wa == 64 ? asD(a) : (double)asF(a), w);
  case SITOFP: return w == 64 ? bitsD((double)sextw(a, wa)) : bitsF((float)sextw(a, wa));
  case UITOFP: return w == 64 ? bitsD((double)a) : bitsF((float)a);
  case FRNDNE: return w == 64 ? bitsD(nearbyint(asD(a))) : bitsF(nearbyintf(asF(a)));
  case FRNDTZ: return w == 64 ? bitsD(trunc(asD(a))) : bitsF(truncf(asF(a)));
  case FRNDDN: return w == 64 ? bitsD(floor(asD(a))) : bitsF(floorf(asF(a)));
  case FRNDUP: return w == 64 ? bitsD(ceil(asD(a))) : bitsF(ceilf(asF(a)));
  case FRNDNA: return w == 64 ? bitsD(round(asD(a))) : bitsF(roundf(asF(a)));
  default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
}

struct Ctx {
  struct Key {
    uint64_t h; Op op; uint8_t w; uint16_t imm; uint64_t val; Expr *a, *b, *c;
    bool operator==(const Key &o) const { return op == o.op && w == o.w && imm == o.imm && val == o.val && a == o.a && b == o.b && c == o.c; }
  };
  struct KH { size_t operator()(const Key &k) const { return k.h; } };
  std::unordered_map<Key, Expr *, KH> table;
  std::vector<Expr *> all;
  char *chunk = nullptr; size_t chunkLeft = 0;
  struct VV { size_t operator()(const VarVec *v) const { size_t h = 1469598103; for (auto x : *v) h = (h ^ x) * 1099511628211ull; return h; } };
  struct VE { bool operator()(const VarVec *a, const VarVec *b) const { return *a == *b; } };
  std::unordered_set<const VarVec *, VV, VE> vsets;
  std::unordered_map<uint64_t, const VarVec *> unionMemo;
  const VarVec *emptyVars;
  std::vector<std::string> varNames; std::vector<uint8_t> varW; std::vector<Expr *> varE;

  Ctx() { emptyVars = new VarVec(); vsets.insert(emptyVars); }

  const VarVec *internVars(VarVec v) {
    auto it = vsets.find(&v);
    if (it != vsets.end()) return *it;
    auto p = new VarVec(std::move(v)); vsets.insert(p); return p;
  }
  struct PairH { size_t operator()(const std::pair<const VarVec*, const VarVec*> &p) const { return (size_t)p.first * 31 ^ (size_t)p.second; } };
  std::unordered_map<std::pair<const VarVec*, const VarVec*>, const VarVec*, PairH> uMemo;
  const VarVec *unionVars(const VarVec *x, const VarVec *y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    if (x > y) std::swap(x, y);
    auto &r = uMemo[{x, y}];
    if (r) return r;
    VarVec v; v.reserve(x->size() + y->size());
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(v));
    return r = internVars(std::move(v));
  }

  // interval of a floating point term that is certainly not NaN; rounding is
  // monotone, so evaluating the end points is exact
  static bool isFpOp(Op o) { return o == FADD || o == FSUB || o == FMUL || o == FDIV || o == FPEXT || o == FPTRUNC || o == SITOFP || o == UITOFP || (o >= FRNDNE && o <= FRNDNA); }
  std::unordered_map<const Expr *, std::pair<double, double>> frMemo;
  bool frange(const Expr *e, double &lo, double &hi, int depth = 0) {
    if (e->w != 32 && e->w != 64) return false;
    auto cv = [&](uint64_t v) { return e->w == 64 ? asD(v) : (double)asF(v); };
    if (e->op == CONST) { lo = hi = cv(e->val); return lo == lo; }
    if (depth > 40) return false;
    if (e->op == ITE) {
      double l2, h2;
      if (!frange(e->b, lo, hi, depth + 1) || !frange(e->c, l2, h2, depth + 1)) return false;
      lo = std::min(lo, l2); hi = std::max(hi, h2);
      return true;
    }
    if (!isFpOp(e->op)) return false;
    auto it = frMemo.find(e);
    if (it != frMemo.end()) { lo = it->second.first; hi = it->second.second; return lo == lo; }
    bool ok = false;
    double al, ah, bl, bh;
    auto rnd = [&](double d) { return e->w == 64 ? d : (double)(float)d; };
    auto bin = [&](double x, double y) -> double {
      uint64_t r = evalOp(e->op, e->w, 0, e->w, e->w == 64 ? bitsD(x) : bitsF((float)x), e->w == 64 ? bitsD(y) : bitsF((float)y), 0, e->w);
      return cv(r);
    };
    switch (e->op) {
    case UITOFP: lo = rnd(cv(evalOp(UITOFP, e->w, 0, e->a->w, e->a->lo, 0, 0, 0))); hi = cv(evalOp(UITOFP, e->w, 0, e->a->w, e->a->hi, 0, 0, 0)); ok = true; break;
    case SITOFP: {
      unsigned w = e->a->w, k = e->a->op == SEXT ? e->a->a->w : w;
      if (e->a->hi < (1ull << (w - 1))) { lo = cv(evalOp(SITOFP, e->w, 0, w, e->a->lo, 0, 0, 0)); hi = cv(evalOp(SITOFP, e->w, 0, w, e->a->hi, 0, 0, 0)); }
      else { hi = rnd(ldexp(1.0, (int)k - 1)); lo = -hi; }
      ok = true; break;
    }
    case FPEXT: ok = frange(e->a, lo, hi, depth + 1); break;
    case FPTRUNC: if ((ok = frange(e->a, lo, hi, depth + 1))) { lo = (double)(float)lo; hi = (double)(float)hi; } break;
    case FRNDNE: case FRNDTZ: case FRNDDN: case FRNDUP: case FRNDNA:
      if ((ok = frange(e->a, al, ah, depth + 1))) { lo = bin(al, 0); hi = bin(ah, 0); } break;
    case FADD: case FSUB: case FMUL: case FDIV:
      if (!frange(e->a, al, ah, depth + 1) || !frange(e->b, bl, bh, depth + 1)) break;
      if (std::isinf(al) || std::isinf(ah) || std::isinf(bl) || std::isinf(bh)) break; // could be NaN
      if (e->op == FDIV && bl <= 0 && bh >= 0) break;
      { double c[4] = {bin(al, bl), bin(al, bh), bin(ah, bl), bin(ah, bh)};
        lo = hi = c[0]; for (double x : c) { lo = std::min(lo, x); hi = std::max(hi, x); } }
      ok = true; break;
    default: break;
    }
    if (!ok) lo = hi = NAN;
    frMemo[e] = {lo, hi};
    return ok;
  }
  // e is |a| as a bit pattern
  void magRange(Expr *e, Expr *a) {
    double l, h;
    if ((a->w != 64 && a->w != 32) || !frange(a, l, h)) return;
    double mx = std::max(fabs(l), fabs(h));
    e->hi = std::min(e->hi, a->w == 64 ? bitsD(mx) : (uint64_t)bitsF((float)mx));
  }
  Expr *raw(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, unsigned imm = 0, uint64_t val = 0) {
    Key k; k.op = op; k.w = w; k.imm = imm; k.val = val; k.a = a; k.b = b; k.c = c;
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + imm * 0x165667B19E3779F9ull;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(val); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
    k.h = h;
    auto it = table.find(k);
    if (it != table.end()) return it->second;
    if (chunkLeft < sizeof(Expr)) { chunkLeft = sizeof(Expr) * 4096; chunk = (char *)malloc(chunkLeft); }
    Expr *e = (Expr *)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr);
    e->op = op; e->w = w; e->imm = imm; e->val = val; e->a = a; e->b = b; e->c = c;
    e->id = all.size(); all.push_back(e);
    e->depth = 1 + std::max(a ? a->depth : 0, std::max(b ? b->depth : 0, c ? c->depth : 0));
    if (op == VAR) { e->vars = internVars(VarVec{(uint32_t)val}); }
    else { e->vars = emptyVars; if (a) e->vars = a->vars; if (b) e->vars = unionVars(e->vars, b->vars); if (c) e->vars = unionVars(e->vars, c->vars); }
    range(e);
    table.emplace(k, e);
    return e;
  }
  void range(Expr *e) {
    uint64_t m = maskw(e->w);
    e->lo = 0; e->hi = m;
    Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case CONST: e->lo = e->hi = e->val; break;
    case ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case AND: {
      e->hi = std::min(a->hi, b->hi);
      if (b->op == CONST && b->val == maskw(e->w - 1)) magRange(e, a);
      break;
    }
    case OR: {
      e->lo = std::max(a->lo, b->lo);
      uint64_t x = a->hi | b->hi; int n = x ? 64 - __builtin_clzll(x) : 0; e->hi = maskw(n); if (n == 0) e->hi = 0; break;
    }
    case XOR: { uint64_t x = a->hi | b->hi; int n = x ? 64 - __builtin_clzll(x) : 0; e->hi = n ? maskw(n) : 0; break; }
    case LSHR: if (b->op == CONST) { if (b->val >= e->w) { e->hi = 0; } else { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } } else e->hi = a->hi; break;
    case SHL: if (b->op == CONST && b->val < e->w && (a->hi <= (m >> b->val))) { e->lo = a->lo << b->val; e->hi = a->hi << b->val; } break;
    case ADD: if (a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
      else if (b->op == CONST) { // adding a negative constant without wrap-around ambiguity
        unsigned __int128 l = (unsigned __int128)a->lo + b->val, h = (unsigned __int128)a->hi + b->val;
        if (l > m && h > m) { e->lo = (uint64_t)l & m; e->hi = (uint64_t)h & m; }
      } break;
    case SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case MUL: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)p; } break; }
    case UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } else e->hi = a->hi > b->hi ? a->hi : (b->hi ? std::max(a->hi, b->hi - 1) : a->hi); break;
    case UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
    case EXTRACT: if (e->imm == 0 && e->w + 1 == a->w && isFpOp(a->op)) { magRange(e, a); break; }
      if (e->imm == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
      else if ((a->hi >> e->imm) <= m) { e->lo = a->lo >> e->imm; e->hi = a->hi >> e->imm; } break;
    case CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case SEXT: if (a->hi < (1ull << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
    default: break;
    }
  }
  Expr *cst(uint64_t v, unsigned w) { return raw(CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
  Expr *T() { return cst(1, 1); }
  Expr *F() { return cst(0, 1); }
  std::unordered_map<std::string, Expr *> varByKey;
  Expr *var(const std::string &key, const std::string &name, unsigned w) {
    auto &r = varByKey[key];
    if (r) return r;
    uint32_t i = varNames.size(); varNames.push_back(name); varW.push_back(w);
    r = raw(VAR, w, nullptr, nullptr, nullptr, 0, i);
    varE.push_back(r);
    return r;
  }
  static bool isC(Expr *e) { return e->op == CONST; }

  Expr *not1(Expr *e) { return mk(NOT, e->w, e); }
  Expr *ite(Expr *c, Expr *a, Expr *b) { return mk(ITE, a->w, c, a, b); }
  Expr *extract(Expr *e, unsigned lo, unsigned w) { return mk(EXTRACT, w, e, nullptr, nullptr, lo); }
  Expr *zext(Expr *e, unsigned w) { return e->w == w ? e : mk(ZEXT, w, e); }
  Expr *sext(Expr *e, unsigned w) { return e->w == w ? e : mk(SEXT, w, e); }
  Expr *concat(Expr *h, Expr *l) { return mk(CONCAT, h->w + l->w, h, l); }
  Expr *eq(Expr *a, Expr *b) { return mk(EQ, 1, a, b); }
  Expr *andb(Expr *a, Expr *b) { return mk(AND, a->w, a, b); }
  Expr *orb(Expr *a, Expr *b) { return mk(OR, a->w, a, b); }

  // unsigned division of small operands at their real width
  Expr *narrowDiv(Op op, unsigned w, Expr *a, Expr *b) {
    uint64_t x = a->hi | b->hi; unsigned k = x ? 64 - __builtin_clzll(x) : 1;
    if (b->lo == 0 || k + 4 > w) return nullptr;
    return zext(mk(op, k, extract(a, 0, k), extract(b, 0, k)), w);
  }
  // Sums and xors are kept as sorted chains, so that equal multisets of terms
  // are the same expression whatever the order they were combined in.
  Expr *flatten(Op op, unsigned w, Expr *a, Expr *b) {
    std::vector<Expr *> t; uint64_t k = 0;
    for (Expr *e : {a, b}) {
      while (e->op == op) {
        if (isC(e->b)) k = op == ADD ? k + e->b->val : k ^ e->b->val; else t.push_back(e->b);
        e = e->a; if (t.size() > 400) return nullptr;
      }
      t.push_back(e);
    }
    for (auto *e : t) if (e->op == op) return nullptr;
    if (op == ADD) for (auto *&e : t) { // constant low bits belong to the constant
      Expr *x = e->op == ZEXT ? e->a : e;
      if (x->op == CONCAT && isC(x->b) && x->b->val) { k += x->b->val; e = zext(concat(x->a, cst(0, x->b->w)), w); }
    }
    std::sort(t.begin(), t.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    if (op == XOR) { std::vector<Expr *> u; for (auto *e : t) if (!u.empty() && u.back() == e) u.pop_back(); else u.push_back(e); t.swap(u); }
    if (t.empty()) return cst(k, w);
    Expr *r = t[0];
    for (size_t i = 1; i < t.size(); i++) r = raw(op, w, r, t[i]);
    if (k & maskw(w)) r = mk(op, w, r, cst(k, w));
    return r;
  }

  // a + b or a - b as a linear combination, when terms cancel in it
  Expr *linear(unsigned w, Expr *a, Expr *b, bool sub) {
    std::vector<std::pair<Expr *, bool>> st{{a, false}, {b, sub}}; std::vector<Expr *> pos, neg; uint64_t k = 0; bool mixed = sub;
    while (!st.empty()) {
      auto [e, n] = st.back(); st.pop_back();
      if (isC(e)) k += n ? 0 - e->val : e->val;
      else if (e->op == ADD) { st.push_back({e->a, n}); st.push_back({e->b, n}); }
      else if (e->op == SUB) { st.push_back({e->a, n}); st.push_back({e->b, !n}); mixed = true; }
      else if (e->op == NOT) { st.push_back({e->a, !n}); k += n ? 1 : ~0ull; mixed = true; }
      else (n ? neg : pos).push_back(e);
      if (pos.size() + neg.size() + st.size() > 24) return nullptr;
    }
    if (!mixed || neg.empty() || pos.empty()) return nullptr;
    auto lt = [](Expr *x, Expr *y) { return x->id < y->id; };
    std::sort(pos.begin(), pos.end(), lt); std::sort(neg.begin(), neg.end(), lt);
    std::vector<Expr *> p, q; size_t i = 0, j = 0;
    while (i < pos.size() || j < neg.size()) {
      if (i < pos.size() && j < neg.size() && pos[i] == neg[j]) { i++; j++; }
      else if (j >= neg.size() || (i < pos.size() && pos[i]->id < neg[j]->id)) p.push_back(pos[i++]);
      else q.push_back(neg[j++]);
    }
    if (p.size() == pos.size()) return nullptr; // nothing cancelled
    Expr *r = cst(k, w);
    for (auto *e : p) r = mk(ADD, w, r, e);
    for (auto *e : q) r = mk(SUB, w, r, e);
    return r;
  }

  Expr *mk(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, unsigned imm = 0) {
    // constant folding
    if (op != VAR && op != CONST && isC(a) && (!b || isC(b)) && (!c || isC(c)))
      return cst(evalOp(op, w, imm, a->w, a->val, b ? b->val : 0, c ? c->val : 0, b ? b->w : 0), w);
    uint64_t m = maskw(w);
    if (op == FOEQ || op == FOLT || op == FOLE || op == FUNO) {
      double al, ah, bl, bh;
      if (frange(a, al, ah) && frange(b, bl, bh)) {
        if (op == FUNO) return F();
        if (op == FOEQ && (ah < bl || bh < al)) return F();
        if (op == FOEQ && a == b) return T();
        if (op == FOLT && ah < bl) return T();
        if (op == FOLT && al >= bh) return F();
        if (op == FOLE && ah <= bl) return T();
        if (op == FOLE && al > bh) return F();
      }
      if (op == FOLT && a == b) return F();
    }
    switch (op) {
    case ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (a->op == ADD && isC(a->b)) return mk(ADD, w, a->a, cst(a->b->val + b->val, w));
        { // constant low part: the carry is known
          Expr *x = a->op == ZEXT ? a->a : a;
          if (x->op == CONCAT && isC(x->b)) {
            unsigned lw = x->b->w; uint64_t lo = x->b->val + (b->val & maskw(lw));
            Expr *h = zext(x->a, w - lw);
            return concat(mk(ADD, w - lw, h, cst((b->val >> lw) + (lo >> lw), w - lw)), cst(lo, lw));
          }
        }
        if (a->op == SUB && isC(a->a)) return mk(SUB, w, cst(a->a->val + b->val, w), a->b);
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val + b->val, w), cst(a->c->val + b->val, w));
      } else {
        { Expr *x = a, *y = b;
          for (int t = 0; t < 2; t++, std::swap(x, y)) {
            Expr *y2 = y->op == ZEXT ? y->a : y;
            if (y2->op == CONCAT && isC(y2->b) && y2->b->val == 0 && x->hi <= maskw(y2->b->w)) return mk(OR, w, x, y);
          } }
        if (a->id > b->id) std::swap(a, b);
        if (Expr *r = linear(w, a, b, false)) return r;
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        if (a->op == ADD && isC(a->b) ) return mk(ADD, w, mk(ADD, w, a->a, b), a->b);
        if (b->op == ADD && isC(b->b) ) return mk(ADD, w, mk(ADD, w, a, b->a), b->b);
        if (w == 64) if (Expr *r = flatten(ADD, w, a, b)) return r;
      }
      break;
    case SUB:
      if (a == b) return cst(0, w);
      if (isC(b)) return mk(ADD, w, a, cst(0 - b->val, w));
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      if (!isC(a)) if (Expr *r = linear(w, a, b, true)) return r;
      if (a->op == ADD && isC(a->b)) return mk(ADD, w, mk(SUB, w, a->a, b), a->b);
      if (b->op == ADD && isC(b->b)) return mk(ADD, w, mk(SUB, w, a, b->a), cst(0 - b->b->val, w));
      break;
    case MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) return mk(SHL, w, a, cst(__builtin_ctzll(b->val), w));
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val * b->val, w), cst(a->c->val * b->val, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case UDIV:
      if (isC(b) && b->val && a->lo / b->val == a->hi / b->val) return cst(a->lo / b->val, w);
      if (isC(b) && b->val == 1) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(LSHR, w, a, cst(__builtin_ctzll(b->val), w));
      if (b->lo > 0 && a->hi < b->lo) return cst(0, w);
      if (Expr *r = narrowDiv(op, w, a, b)) return r;
      break;
    case UREM:
      if (isC(b) && b->val && a->lo / b->val == a->hi / b->val) return mk(SUB, w, a, cst(a->lo / b->val * b->val, w));
      if (isC(b) && b->val == 1) return cst(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(AND, w, a, cst(b->val - 1, w));
      if (b->lo > 0 && a->hi < b->lo) return a;
      if (Expr *r = narrowDiv(op, w, a, b)) return r;
      break;
    case SDIV: if (isC(b) && b->val == 1) return a;
      if (w >= 2 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return mk(UDIV, w, a, b);
      break;
    case SREM: if (isC(b) && b->val == 1) return cst(0, w);
      if (w >= 2 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return mk(UREM, w, a, b);
      break;
    case AND:
      if (a == b) return a;
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->op == AND && isC(a->b)) return mk(AND, w, a->a, cst(a->b->val & b->val, w));
        // low mask => zext(extract)
        uint64_t v = b->val;
        if ((v & (v + 1)) == 0) {
          unsigned n = 64 - __builtin_clzll(v);
          if (a->hi <= v) return a;
          return zext(extract(a, 0, n), w);
        }
        { unsigned k = __builtin_ctzll(v); uint64_t t = v >> k; // one run of ones
          if (k && (t & (t + 1)) == 0) { unsigned n = 64 - __builtin_clzll(t); return zext(concat(extract(a, k, n), cst(0, k)), w); } }
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val & v, w), cst(a->c->val & v, w));
        if (a->op == ZEXT && w > 1) return zext(mk(AND, a->a->w, a->a, cst(v, a->a->w)), w);
        // single high-mask on zext etc. left to the solver
      } else {
        if (w == 1) { if (a->op == NOT && a->a == b) return cst(0, 1); if (b->op == NOT && b->a == a) return cst(0, 1); }
        if (a->id > b->id) std::swap(a, b);
        if (b->op == AND && (b->a == a || b->b == a)) return b;
        if (a->op == AND && (a->a == b || a->b == b)) return a;
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(mk(AND, a->a->w, a->a, b->a), w);
      }
      break;
    case OR:
      if (a == b) return a;
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
        if (a->op == OR && isC(a->b)) return mk(OR, w, a->a, cst(a->b->val | b->val, w));
        { Expr *x = a->op == ZEXT ? a->a : a;
          if (x->op == CONCAT && isC(x->b)) { unsigned lw = x->b->w;
            return concat(mk(OR, w - lw, zext(x->a, w - lw), cst(b->val >> lw, w - lw)), cst(x->b->val | b->val, lw)); } }
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val | b->val, w), cst(a->c->val | b->val, w));
      } else {
        if (w == 1) { if (a->op == NOT && a->a == b) return cst(1, 1); if (b->op == NOT && b->a == a) return cst(1, 1); }
        // disjoint halves: (zext x) | (y << k)
        Expr *x = a, *y = b;
        for (int t = 0; t < 2; t++, std::swap(x, y))
          if (y->op == SHL && isC(y->b) && y->b->val > 0 && y->b->val < w && x->hi <= maskw(y->b->val)) {
            unsigned k = y->b->val;
            return concat(extract(y->a, 0, w - k), extract(x, 0, k));
          } else {
            Expr *y2 = y->op == ZEXT ? y->a : y;
            if (y2->op == CONCAT && isC(y2->b) && y2->b->val == 0 && x->hi <= maskw(y2->b->w)) {
              unsigned lw = y2->b->w;
              return concat(zext(y2->a, w - lw), extract(x, 0, lw));
            }
          }
        if (a->id > b->id) std::swap(a, b);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(mk(OR, a->a->w, a->a, b->a), w);
      }
      break;
    case XOR:
      if (a == b) return cst(0, w);
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val == m) return mk(NOT, w, a);
        if (a->op == XOR && isC(a->b)) return mk(XOR, w, a->a, cst(a->b->val ^ b->val, w));
        { Expr *x = a->op == ZEXT ? a->a : a;
          if (x->op == CONCAT && isC(x->b)) { unsigned lw = x->b->w;
            return concat(mk(XOR, w - lw, zext(x->a, w - lw), cst(b->val >> lw, w - lw)), cst(x->b->val ^ b->val, lw)); } }
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val ^ b->val, w), cst(a->c->val ^ b->val, w));
      } else { if (a->op == NOT && b->op == NOT) return mk(XOR, w, a->a, b->a);
        if (a->op == NOT) return mk(NOT, w, mk(XOR, w, a->a, b)); if (b->op == NOT) return mk(NOT, w, mk(XOR, w, a, b->a));
        if (a->id > b->id) std::swap(a, b);
        if (a->op == XOR) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        if (b->op == XOR) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
        if (w == 64 && (a->op == XOR || b->op == XOR)) if (Expr *r = flatten(XOR, w, a, b)) return r; }
      break;
    case NOT:
      if (a->op == NOT) return a->a;
      if (w == 1) {
        if (a->op == ULT) return mk(ULE, 1, a->b, a->a);
        if (a->op == ULE) return mk(ULT, 1, a->b, a->a);
        if (a->op == SLT) return mk(SLE, 1, a->b, a->a);
        if (a->op == SLE) return mk(SLT, 1, a->b, a->a);
        if (a->op == ITE && (isC(a->b) || isC(a->c))) return ite(a->a, not1(a->b), not1(a->c));
      }
      break;
    case SHL:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return cst(0, w);
        if (a->op == SHL && isC(a->b)) return mk(SHL, w, a->a, cst(std::min<uint64_t>(w, a->b->val + b->val), w));
        if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val << b->val, w), cst(a->c->val << b->val, w));
        return concat(extract(a, 0, w - b->val), cst(0, b->val));
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case LSHR:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return cst(0, w);
        return zext(extract(a, b->val, w - b->val), w);
      }
      if (isC(a) && a->val == 0) return a;
      break;
    case ASHR:
      if (isC(b)) {
        if (b->val == 0) return a;
        uint64_t s = std::min<uint64_t>(b->val, w - 1);
        return sext(extract(a, s, w - s), w);
      }
      break;
    case EQ: {
      if (a == b) return T();
      if (isC(a)) std::swap(a, b);
      if (a->hi < b->lo || b->hi < a->lo) return F();
      if (isC(b)) {
        uint64_t v = b->val; unsigned ow = a->w;
        if (ow == 1) return v ? a : not1(a);
        switch (a->op) {
        case ADD: if (isC(a->b)) return eq(a->a, cst(v - a->b->val, ow)); break;
        case SUB: if (isC(a->a)) return eq(a->b, cst(a->a->val - v, ow)); if (v == 0) return eq(a->a, a->b); break;
        case XOR: if (isC(a->b)) return eq(a->a, cst(v ^ a->b->val, ow)); if (v == 0) return eq(a->a, a->b); break;
        case NOT: return eq(a->a, cst(~v, ow));
        case ZEXT: if (v > maskw(a->a->w)) return F(); return eq(a->a, cst(v, a->a->w));
        case SEXT: if (((uint64_t)sextw(v, a->a->w) & maskw(ow)) != v) return F(); return eq(a->a, cst(v, a->a->w));
        case CONCAT: return andb(eq(a->a, cst(v >> a->b->w, a->a->w)), eq(a->b, cst(v, a->b->w)));
        case ITE: if (isC(a->b) || isC(a->c)) {
            Expr *x = eq(a->b, b), *y = eq(a->c, b);
            return ite(a->a, x, y);
          } break;
        case OR: if (v == 0) return andb(eq(a->a, b), eq(a->b, b)); break;
        default: break;
        }
      } else {
        if (a->id > b->id) std::swap(a, b);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->op == ADD && b->op == ADD) {
          if (a->a == b->a) return eq(a->b, b->b); if (a->b == b->b) return eq(a->a, b->a);
          if (a->a == b->b) return eq(a->b, b->a); if (a->b == b->a) return eq(a->a, b->b);
        }
        if (a->op == ADD && a->a == b) return eq(a->b, cst(0, a->w));
        if (a->op == ADD && a->b == b) return eq(a->a, cst(0, a->w));
        if (b->op == ADD && b->a == a) return eq(b->b, cst(0, a->w));
        if (b->op == ADD && b->b == a) return eq(b->a, cst(0, a->w));
        if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return andb(eq(a->a, b->a), eq(a->b, b->b));
        if (a->w == 1) return not1(mk(XOR, 1, a, b));
        // eq(zext a, b) with b narrow range handled by solver
      }
      break;
    }
    case ULT:
      if (a == b) return F();
      if (a->hi < b->lo) return T();
      if (a->lo >= b->hi) return F();
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, 1, a->a, b->a);
      if (a->op == ZEXT && isC(b)) return mk(ULT, 1, a->a, cst(b->val, a->a->w)); // b in range of a (else folded above)
      if (b->op == ZEXT && isC(a)) return mk(ULT, 1, cst(a->val, b->a->w), b->a);
      if (isC(b) && b->val == 1) return eq(a, cst(0, a->w));
      if (isC(a) && a->val == 0) return not1(eq(b, a));
      if (a->op == ITE && isC(b) && isC(a->b) && isC(a->c)) return ite(a->a, mk(ULT, 1, a->b, b), mk(ULT, 1, a->c, b));
      if (a->w == 1) return andb(not1(a), b);
      break;
    case ULE:
      if (a == b) return T();
      if (a->hi <= b->lo) return T();
      if (a->lo > b->hi) return F();
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULE, 1, a->a, b->a);
      if (a->op == ZEXT && isC(b)) return mk(ULE, 1, a->a, cst(b->val, a->a->w));
      if (b->op == ZEXT && isC(a)) return mk(ULE, 1, cst(a->val, b->a->w), b->a);
      if (isC(b)) return mk(ULT, 1, a, cst(b->val + 1, a->w)); // b < max here
      if (isC(a)) return mk(ULT, 1, cst(a->val - 1, a->w), b); // a > 0 here
      if (a->w == 1) return orb(not1(a), b);
      break;
    case SLT: case SLE: {
      if (a == b) return op == SLT ? F() : T();
      uint64_t sb = 1ull << (a->w - 1);
      bool an = a->hi < sb, bn = b->hi < sb; // known non-negative
      if (an && bn) return mk(op == SLT ? ULT : ULE, 1, a, b);
      bool ag = a->lo >= sb, bg = b->lo >= sb; // known negative
      if (ag && bg) return mk(op == SLT ? ULT : ULE, 1, a, b);
      if (an && bg) return F();
      if (ag && bn) return T();
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(op, 1, a->a, b->a);
      if (a->op == SEXT && isC(b)) {
        int64_t v = sextw(b->val, a->w); unsigned nw = a->a->w; int64_t mn = sextw(1ull << (nw - 1), nw), mx = -(mn + 1);
        if (v > mx) return T(); if (v < mn) return F();
        return mk(op, 1, a->a, cst(v, nw));
      }
      if (b->op == SEXT && isC(a)) {
        int64_t v = sextw(a->val, b->w); unsigned nw = b->a->w; int64_t mn = sextw(1ull << (nw - 1), nw), mx = -(mn + 1);
        if (v > mx) return F(); if (v < mn) return T();
        return mk(op, 1, cst(v, nw), b->a);
      }
      if (op == SLE) {
        if (isC(b)) { if (b->val == sb - 1) return T(); return mk(SLT, 1, a, cst(b->val + 1, a->w)); }
        if (isC(a)) { if (a->val == sb) return T(); return mk(SLT, 1, cst(a->val - 1, a->w), b); }
      } else {
        if (isC(b) && b->val == sb) return F();
        if (isC(a) && a->val == sb - 1) return F();
      }
      if (a->op == ITE && isC(b) && isC(a->b) && isC(a->c)) return ite(a->a, mk(op, 1, a->b, b), mk(op, 1, a->c, b));
      break;
    }
    case ITE:
      if (isC(a)) return a->val ? b : c;
      if (b == c) return b;
      if (a->op == NOT) return ite(a->a, c, b);
      if (w == 1) {
        if (isC(b) && isC(c)) return b->val ? a : not1(a);
        if (isC(b)) return b->val ? orb(a, c) : andb(not1(a), c);
        if (isC(c)) return c->val ? orb(not1(a), b) : andb(a, b);
      }
      if (b->op == ITE && b->a == a) return ite(a, b->b, c);
      if (c->op == ITE && c->a == a) return ite(a, b, c->c);
      if (b->op == ZEXT && c->op == ZEXT && b->a->w == c->a->w) return zext(ite(a, b->a, c->a), w);
      if (b->op == CONCAT && c->op == CONCAT && b->a->w == c->a->w) {
        if (b->a == c->a) return concat(b->a, ite(a, b->b, c->b));
        if (b->b == c->b) return concat(ite(a, b->a, c->a), b->b);
      }
      break;
    case EXTRACT:
      if (imm == 0 && w == a->w) return a;
      switch (a->op) {
      case EXTRACT: return extract(a->a, a->imm + imm, w);
      case ZEXT: {
        unsigned iw = a->a->w;
        if (imm >= iw) return cst(0, w);
        if (imm + w <= iw) return extract(a->a, imm, w);
        return zext(extract(a->a, imm, iw - imm), w);
      }
      case SEXT: {
        unsigned iw = a->a->w;
        if (imm + w <= iw) return extract(a->a, imm, w);
        if (imm < iw) return sext(extract(a->a, imm, iw - imm), w);
        return sext(extract(a->a, iw - 1, 1), w);
      }
      case CONCAT: {
        unsigned lw = a->b->w;
        if (imm + w <= lw) return extract(a->b, imm, w);
        if (imm >= lw) return extract(a->a, imm - lw, w);
        return concat(extract(a->a, 0, imm + w - lw), extract(a->b, imm, lw - imm));
      }
      case AND: case OR: case XOR: if (a->depth > 12) break; return mk(a->op, w, extract(a->a, imm, w), extract(a->b, imm, w));
      case NOT: if (a->depth > 12) break; return mk(NOT, w, extract(a->a, imm, w));
      case MUL: if (a->b->op == CONST && w >= 16 && (a->b->val & (a->b->val - 1))) break; [[fallthrough]];
      case ADD: case SUB: if (imm == 0 && a->depth <= 12) return mk(a->op, w, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      case ITE: if ((isC(a->b) || isC(a->c)) ) return ite(a->a, extract(a->b, imm, w), extract(a->c, imm, w)); break;
      default: break;
      }
      break;
    case CONCAT:
      if (isC(a) && a->val == 0) return zext(b, w);
      if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->imm == b->imm + b->w) return extract(a->a, b->imm, w);
      if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->imm == b->a->imm + b->a->w)
        return concat(extract(a->a, b->a->imm, a->w + b->a->w), b->b);
      if (a->op == CONCAT) return concat(a->a, concat(a->b, b)); // right-nested
      if (a->op == ZEXT) { return zext(concat(a->a, b), w); }
      if (isC(a) && b->op == CONCAT && isC(b->a)) return concat(cst((a->val << b->a->w) | b->a->val, a->w + b->a->w), b->b);
      break;
    case ZEXT:
      if (w == a->w) return a;
      if (a->op == ZEXT) return zext(a->a, w);
      if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->val, w), cst(a->c->val, w));
      break;
    case SEXT:
      if (w == a->w) return a;
      if (a->op == SEXT) return sext(a->a, w);
      if (a->hi < (1ull << (a->w - 1))) return zext(a, w);
      if (a->op == ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(sextw(a->b->val, a->w), w), cst(sextw(a->c->val, a->w), w));
      break;
    case UMULO: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= (unsigned __int128)maskw(a->w)) return F(); break; }
    default: break;
    }
    return raw(op, w, a, b, c, imm);
  }
};

static inline std::string show(Expr *e, int d) {
  static const char *n[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","ext","cat","zext","sext"};
  if (!e) return "";
  if (e->op == CONST) return std::to_string(e->val);
  if (e->op == VAR) return "v" + std::to_string(e->val);
  std::string r = (e->op < 26 ? n[e->op] : "fp") + (e->op == EXTRACT ? "[" + std::to_string(e->imm + e->w - 1) + ":" + std::to_string(e->imm) + "]" : ":" + std::to_string(e->w));
  if (d == 0) return r + "#" + std::to_string(e->id);
  r += "("; for (Expr *x : {e->a, e->b, e->c}) if (x) r += (x == e->a ? "" : ", ") + show(x, d - 1);
  return r + ")";
}
// first place where two expressions differ (debugging aid)
static inline std::string diff(Expr *a, Expr *b) {
  for (;;) {
    if (a == b) return "same";
    if (a->op != b->op || a->imm != b->imm || a->w != b->w || !a->a) break;
    if (a->op == ADD || a->op == XOR) {
      std::vector<Expr *> x, y; Expr *t;
      for (t = a; t->op == a->op; t = t->a) x.push_back(t->b); x.push_back(t);
      for (t = b; t->op == a->op; t = t->a) y.push_back(t->b); y.push_back(t);
      std::vector<Expr *> dx, dy;
      for (auto *e : x) if (std::find(y.begin(), y.end(), e) == y.end()) dx.push_back(e);
      for (auto *e : y) if (std::find(x.begin(), x.end(), e) == x.end()) dy.push_back(e);
      if (dx.empty() || dy.empty()) break;
      auto lt = [](Expr *p, Expr *q) { return p->depth < q->depth; };
      std::sort(dx.begin(), dx.end(), lt); std::sort(dy.begin(), dy.end(), lt);
      if (getenv("DIFFV")) fprintf(stderr, "   %s | %s\n   %zu %zu %s\n   %s\n", show(a, 9).c_str(), show(b, 9).c_str(), dx.size(), dy.size(), show(dx[0], 3).c_str(), show(dy[0], 3).c_str());
      a = dx[0]; b = dy[0]; continue;
    }
    if (a->a != b->a) { a = a->a; b = b->a; continue; }
    if (a->b != b->b) { a = a->b; b = b->b; continue; }
    a = a->c; b = b->c;
  }
  return show(a, 4) + "  vs  " + show(b, 4);
}

struct Model {
  std::vector<uint64_t> v; // by var index
  uint64_t stamp;
  static uint64_t next() { static uint64_t n = 1; return n++; }
  Model() : stamp(next()) {}
  Model(const Model &o) : v(o.v), stamp(next()) {}
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};

struct Evaluator {
  std::vector<uint64_t> st, val;
  uint64_t eval(Expr *e, const Model &m) {
    if (e->op == CONST) return e->val;
    if (e->op == VAR) return m.get((uint32_t)e->val) & maskw(e->w);
    if (e->id >= st.size()) { st.resize(e->id + 4096, 0); val.resize(e->id + 4096); }
    if (st[e->id] == m.stamp) return val[e->id];
    uint64_t r;
    if (e->op == ITE) r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m);
    else {
      uint64_t a = eval(e->a, m), b = e->b ? eval(e->b, m) : 0, c = e->c ? eval(e->c, m) : 0;
      r = evalOp(e->op, e->w, e->imm, e->a->w, a, b, c, e->b ? e->b->w : 0);
    }
    st[e->id] = m.stamp; val[e->id] = r;
    return r;
  }
};

} // namespace sx
