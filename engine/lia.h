// Second encoding of a query: bit-vector terms as integers with explicit
// wrap-around variables. Linear arithmetic decides scaling and remainder
// arithmetic that bit-blasting cannot. Every definition added is implied by the
// bit-vector semantics, so UNSAT is final; a model is only used after the
// bit-vector terms have been evaluated under it. Included by solver.h.
#pragma once
#include <z3.h>
#include <map>
#include <unordered_set>
#include <string>
#include <vector>
#include "expr.h"
namespace sx {
struct Lia {
  typedef __int128 i128;
  Z3_context z; Z3_solver s; Z3_sort is; std::vector<Z3_ast> kept; bool fail = false; unsigned nf = 0;
  std::unordered_map<Expr *, Z3_ast> im, bm, sm, carry /* of two-operand sums */; std::map<std::pair<Expr *, uint64_t>, std::pair<Z3_ast, Z3_ast>> dm;
  std::vector<std::pair<uint32_t, Z3_ast>> vars;
  Lia(Z3_context z, Z3_solver s) : z(z), s(s) { is = Z3_mk_int_sort(z); K(Z3_sort_to_ast(z, is)); }
  ~Lia() { for (auto a : kept) Z3_dec_ref(z, a); }
  Z3_ast K(Z3_ast a) { Z3_inc_ref(z, a); kept.push_back(a); return a; }
  Z3_ast num(i128 v) {
    bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; std::string t;
    do { t.insert(t.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
    return K(Z3_mk_numeral(z, (neg ? "-" + t : t).c_str(), is));
  }
  void add(Z3_ast a) { Z3_solver_assert(z, s, K(a)); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return K(Z3_mk_le(z, a, b)); }
  Z3_ast lt(Z3_ast a, Z3_ast b) { return K(Z3_mk_lt(z, a, b)); }
  Z3_ast eq(Z3_ast a, Z3_ast b) { return K(Z3_mk_eq(z, a, b)); }
  Z3_ast plus(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return K(Z3_mk_add(z, 2, t)); }
  Z3_ast minus(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return K(Z3_mk_sub(z, 2, t)); }
  Z3_ast mul(Z3_ast a, i128 c) { if (c == 1) return a; Z3_ast t[2] = {num(c), a}; return K(Z3_mk_mul(z, 2, t)); }
  Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return K(Z3_mk_or(z, 2, t)); }
  Z3_ast not1(Z3_ast a) { return K(Z3_mk_not(z, a)); }
  Z3_ast fresh(i128 lo, i128 hi) {
    if (lo == hi) return num(lo);
    std::string n = "f" + std::to_string(nf++);
    Z3_ast v = K(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), is));
    add(le(num(lo), v)); add(le(v, num(hi))); return v;
  }
  static i128 p2(unsigned k) { return (i128)1 << k; }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
  // v reduced modulo 2^w, given mn <= v <= mx
  Z3_ast wrap(Z3_ast v, i128 mn, i128 mx, unsigned w, Expr *key = nullptr) {
    i128 m = p2(w), k0 = fdiv(mn, m), k1 = fdiv(mx, m);
    if (k0 == k1) { if (key) carry[key] = num(k0); return k0 == 0 ? v : minus(v, num(k0 * m)); }
    Z3_ast k = fresh(k0, k1); if (key) carry[key] = k;
    Z3_ast r = fresh(0, m - 1);
    add(eq(v, plus(r, mul(k, m)))); return r;
  }
  std::pair<Z3_ast, Z3_ast> divmod(Expr *a, uint64_t c) { // c > 0
    auto key = std::make_pair(a, c); auto it = dm.find(key); if (it != dm.end()) return it->second;
    std::pair<Z3_ast, Z3_ast> r; Z3_ast v = T(a);
    if (c == 1) r = {v, num(0)};
    else if (a->hi < c) r = {num(0), v};
    else { Z3_ast q = fresh(a->lo / c, a->hi / c), m = fresh(0, c - 1); add(eq(v, plus(mul(q, c), m))); r = {q, m}; }
    return dm[key] = r;
  }
  Z3_ast sgn(Expr *e) { // signed value
    auto it = sm.find(e); if (it != sm.end()) return it->second;
    Z3_ast v = T(e), r; i128 h = p2(e->w - 1);
    if (e->hi < (unsigned __int128)h) r = v;
    else if (e->lo >= (unsigned __int128)h) r = minus(v, num(2 * h));
    else { Z3_ast k = fresh(0, 1); r = fresh(-h, h - 1); add(eq(v, plus(r, mul(k, 2 * h)))); }
    return sm[e] = r;
  }
  static unsigned tz(Expr *e) { // known trailing zeros
    switch (e->op) {
    case CONST: return e->val ? __builtin_ctzll(e->val) : e->w;
    case SHL: return e->b->op == CONST ? std::min<uint64_t>(e->w, tz(e->a) + e->b->val) : 0;
    case CONCAT: { unsigned t = tz(e->b); return t < e->b->w ? t : e->b->w + tz(e->a); }
    case ZEXT: return tz(e->a) >= e->a->w ? e->w : tz(e->a);
    case MUL: return e->b->op == CONST && e->b->val ? std::min<unsigned>(e->w, __builtin_ctzll(e->b->val) + tz(e->a)) : 0;
    case ADD: case OR: return std::min(tz(e->a), tz(e->b));
    case AND: return std::max(tz(e->a), tz(e->b));
    case ITE: return std::min(tz(e->b), tz(e->c));
    default: return 0;
    }
  }
  static unsigned bl(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
  Z3_ast bad(Expr *e = nullptr) { if (!fail && getenv("RCSYM_LIAFAIL")) fprintf(stderr, "lia: op %d w%d %s\n", e ? e->op : -1, e ? e->w : 0, e ? show(e, 4).c_str() : ""); fail = true; return num(0); }
  void addends(Expr *e, bool neg, std::vector<std::pair<Expr *, bool>> &out, unsigned lim) {
    if (lim < 12 && opaque && opaque->count(e)) out.push_back({e, neg});
    else if (e->op == ADD && lim) { addends(e->a, neg, out, lim - 1); addends(e->b, neg, out, lim - 1); }
    else if (e->op == SUB && lim) { addends(e->a, neg, out, lim - 1); addends(e->b, !neg, out, lim - 1); }
    else out.push_back({e, neg});
  }
  const std::unordered_set<Expr *> *opaque = nullptr;
  Z3_ast T(Expr *e) { // unsigned value
    auto it = im.find(e); if (it != im.end()) return it->second;
    if (fail) return num(0);
    if (opaque && opaque->count(e)) return im[e] = fresh(e->lo, e->hi);
    Z3_ast r = T1(e); im[e] = r; return r;
  }
  static bool boolOp(Expr *e) {
    if (e->w != 1) return false;
    switch (e->op) { case EQ: case ULT: case ULE: case SLT: case SLE: case UMULO: case AND: case OR: case XOR: case NOT: case ITE: return true; default: return false; }
  }
  Z3_ast T1(Expr *e) {
    unsigned w = e->w;
    if (boolOp(e)) { Z3_ast b = B(e); return K(Z3_mk_ite(z, b, num(1), num(0))); }
    switch (e->op) {
    case CONST: return num(e->val);
    case VAR: { std::string n = "v" + std::to_string(e->val); Z3_ast v = K(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), is)); add(le(num(0), v)); add(le(v, num(maskw(w)))); vars.push_back({(uint32_t)e->val, v}); return v; }
    case ADD: case SUB: {
      std::vector<std::pair<Expr *, bool>> ts; addends(e, false, ts, 12);
      Z3_ast sum = nullptr; i128 mn = 0, mx = 0; bool plain = e->op == ADD && ts.size() == 2;
      for (auto &t : ts) {
        i128 lo = t.first->lo, hi = t.first->hi; Z3_ast v;
        if (t.first->op == CONST) { lo = hi = sextw(t.first->val, w); v = num(lo); if (lo < 0) plain = false; }
        else if (t.first->op == SEXT && t.first->a->hi >> (t.first->a->w - 1)) { hi = p2(t.first->a->w - 1) - 1; lo = -hi - 1; v = sgn(t.first->a); plain = false; } // congruent, fewer wraps
        else v = T(t.first);
        if (t.second) { sum = sum ? minus(sum, v) : minus(num(0), v); mn -= hi; mx -= lo; } else { sum = sum ? plus(sum, v) : v; mn += lo; mx += hi; }
      }
      return wrap(sum, mn, mx, w, plain ? e : nullptr);
    }
    case MUL: { if (e->b->op != CONST) return bad(e); i128 c = sextw(e->b->val, w), l = (i128)e->a->lo * c, h = (i128)e->a->hi * c; return wrap(mul(T(e->a), c), std::min(l, h), std::max(l, h), w); }
    case SHL: if (e->b->op != CONST) return bad(e); if (e->b->val >= w) return num(0);
      { unsigned k = e->b->val; if (e->a->hi <= (maskw(w) >> k)) return mul(T(e->a), p2(k)); return mul(divmod(e->a, 1ull << (w - k)).second, p2(k)); }
    case LSHR: if (e->b->op != CONST) return bad(e); if (e->b->val >= w) return num(0); return divmod(e->a, 1ull << e->b->val).first;
    case ASHR: { if (e->b->op != CONST) return bad(e); unsigned k = std::min<uint64_t>(e->b->val, w - 1); if (!k) return T(e->a); i128 h = p2(w - 1);
      Z3_ast q = fresh(fdiv(-h, p2(k)), fdiv(h - 1, p2(k))), m = fresh(0, p2(k) - 1); add(eq(sgn(e->a), plus(mul(q, p2(k)), m))); return wrap(q, fdiv(-h, p2(k)), fdiv(h - 1, p2(k)), w); }
    case CONCAT: return plus(mul(T(e->a), p2(e->b->w)), T(e->b));
    case ZEXT: return T(e->a);
    case SEXT: { i128 h = p2(e->a->w - 1); return wrap(sgn(e->a), e->a->hi < (unsigned __int128)h ? 0 : -h, h - 1, w); }
    case EXTRACT: {
      if (e->imm == 0) return e->a->hi <= maskw(w) ? T(e->a) : divmod(e->a, 1ull << w).second;
      auto d = divmod(e->a, 1ull << e->imm); // split again for a middle slice
      if ((e->a->hi >> e->imm) <= maskw(w)) return d.first;
      uint64_t h = e->a->hi >> e->imm; Z3_ast q = fresh(0, h >> w), m = fresh(0, maskw(w)); add(eq(d.first, plus(mul(q, p2(w)), m))); return m;
    }
    case AND: {
      if (e->b->op != CONST) return bad(e); uint64_t m = e->b->val; if (!m) return num(0);
      unsigned sft = __builtin_ctzll(m); uint64_t t = m >> sft; if (t & (t + 1)) return bad(e); unsigned n = bl(t);
      if (sft == 0) return e->a->hi <= m ? T(e->a) : divmod(e->a, n >= 64 ? 0 : 1ull << n).second;
      auto d = divmod(e->a, 1ull << sft);
      if ((e->a->hi >> sft) <= t) return mul(d.first, p2(sft));
      uint64_t h = e->a->hi >> sft; Z3_ast q = fresh(0, h >> n), x = fresh(0, t); add(eq(d.first, plus(mul(q, p2(n)), x))); return mul(x, p2(sft));
    }
    case OR: case XOR: if (bl(e->b->hi) <= tz(e->a) || bl(e->a->hi) <= tz(e->b)) return plus(T(e->a), T(e->b)); return bad(e);
    case NOT: return minus(num(maskw(w)), T(e->a));
    case ITE: { Z3_ast c = B(e->a), x = T(e->b), y = T(e->c); return K(Z3_mk_ite(z, c, x, y)); }
    case UREM: {
      if (e->b->op == CONST) return e->b->val ? divmod(e->a, e->b->val).second : T(e->a);
      Z3_ast a = T(e->a), b = T(e->b), r = fresh(0, e->hi);
      add(or2(eq(b, num(0)), lt(r, b))); add(le(r, a)); add(or2(le(b, a), eq(r, a))); add(or2(lt(a, b), le(r, minus(a, b)))); add(or2(not1(eq(b, num(0))), eq(r, a)));
      return r;
    }
    case UDIV: {
      if (e->b->op == CONST) return e->b->val ? divmod(e->a, e->b->val).first : num(maskw(w));
      Z3_ast a = T(e->a), b = T(e->b), q = fresh(0, maskw(w)); Z3_ast b0 = eq(b, num(0));
      add(or2(b0, le(q, a))); add(or2(le(b, a), eq(q, num(0)))); add(or2(b0, or2(lt(a, b), le(num(1), q)))); add(or2(not1(b0), eq(q, num(maskw(w)))));
      return q;
    }
    default: return bad(e);
    }
  }
  Z3_ast B(Expr *e) {
    auto it = bm.find(e); if (it != bm.end()) return it->second;
    if (fail) return K(Z3_mk_true(z));
    Z3_ast r;
    switch (e->op) {
    case CONST: r = K(e->val ? Z3_mk_true(z) : Z3_mk_false(z)); break;
    case EQ: r = e->a->w == 1 && (boolOp(e->a) || boolOp(e->b)) ? K(Z3_mk_iff(z, B(e->a), B(e->b))) : eq(T(e->a), T(e->b)); break;
    case ULT: {
      Z3_ast x = T(e->a), y = T(e->b);
      if (e->a->op == ADD && (e->a->a == e->b || e->a->b == e->b) && carry.count(e->a)) { r = eq(carry[e->a], num(1)); break; } // x + y < y: the sum wrapped
      r = lt(x, y); break;
    }
    case ULE: r = le(T(e->a), T(e->b)); break;
    case SLT: r = lt(sgn(e->a), sgn(e->b)); break;
    case SLE: r = le(sgn(e->a), sgn(e->b)); break;
    case UMULO: if (e->b->op != CONST) { fail = true; r = K(Z3_mk_true(z)); } else r = lt(num(maskw(e->a->w)), mul(T(e->a), e->b->val)); break;
    case AND: { Z3_ast t[2] = {B(e->a), B(e->b)}; r = K(Z3_mk_and(z, 2, t)); break; }
    case OR: { Z3_ast t[2] = {B(e->a), B(e->b)}; r = K(Z3_mk_or(z, 2, t)); break; }
    case XOR: r = K(Z3_mk_xor(z, B(e->a), B(e->b))); break;
    case NOT: r = not1(B(e->a)); break;
    case ITE: r = K(Z3_mk_ite(z, B(e->a), B(e->b), B(e->c))); break;
    default: r = eq(T(e), num(1)); break;
    }
    return bm[e] = r;
  }
};
} // namespace sx
