// Z3 back end: slicing, caching, lazy abstraction of hard arithmetic.
#pragma once
#include "expr.h"
#include <z3.h>
#include <unistd.h>
#include <chrono>
#include <map>
#include "lia.h"

namespace sx {

enum Res { UNSAT, SAT, UNKNOWN };

static inline double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// every AST is kept alive: nested temporaries would otherwise be collected
#define Z3_mk_and(...) keep((::Z3_mk_and)(__VA_ARGS__))
#define Z3_mk_bvadd(...) keep((::Z3_mk_bvadd)(__VA_ARGS__))
#define Z3_mk_bvand(...) keep((::Z3_mk_bvand)(__VA_ARGS__))
#define Z3_mk_bvashr(...) keep((::Z3_mk_bvashr)(__VA_ARGS__))
#define Z3_mk_bvlshr(...) keep((::Z3_mk_bvlshr)(__VA_ARGS__))
#define Z3_mk_bvmul(...) keep((::Z3_mk_bvmul)(__VA_ARGS__))
#define Z3_mk_bvmul_no_overflow(...) keep((::Z3_mk_bvmul_no_overflow)(__VA_ARGS__))
#define Z3_mk_bvmul_no_underflow(...) keep((::Z3_mk_bvmul_no_underflow)(__VA_ARGS__))
#define Z3_mk_bvnot(...) keep((::Z3_mk_bvnot)(__VA_ARGS__))
#define Z3_mk_bvor(...) keep((::Z3_mk_bvor)(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) keep((::Z3_mk_bvsdiv)(__VA_ARGS__))
#define Z3_mk_bvshl(...) keep((::Z3_mk_bvshl)(__VA_ARGS__))
#define Z3_mk_bvsle(...) keep((::Z3_mk_bvsle)(__VA_ARGS__))
#define Z3_mk_bvslt(...) keep((::Z3_mk_bvslt)(__VA_ARGS__))
#define Z3_mk_bvsrem(...) keep((::Z3_mk_bvsrem)(__VA_ARGS__))
#define Z3_mk_bvsub(...) keep((::Z3_mk_bvsub)(__VA_ARGS__))
#define Z3_mk_bvudiv(...) keep((::Z3_mk_bvudiv)(__VA_ARGS__))
#define Z3_mk_bvule(...) keep((::Z3_mk_bvule)(__VA_ARGS__))
#define Z3_mk_bvult(...) keep((::Z3_mk_bvult)(__VA_ARGS__))
#define Z3_mk_bvurem(...) keep((::Z3_mk_bvurem)(__VA_ARGS__))
#define Z3_mk_bvxor(...) keep((::Z3_mk_bvxor)(__VA_ARGS__))
#define Z3_mk_concat(...) keep((::Z3_mk_concat)(__VA_ARGS__))
#define Z3_mk_const(...) keep((::Z3_mk_const)(__VA_ARGS__))
#define Z3_mk_eq(...) keep((::Z3_mk_eq)(__VA_ARGS__))
#define Z3_mk_extract(...) keep((::Z3_mk_extract)(__VA_ARGS__))
#define Z3_mk_false(...) keep((::Z3_mk_false)(__VA_ARGS__))
#define Z3_mk_fpa_add(...) keep((::Z3_mk_fpa_add)(__VA_ARGS__))
#define Z3_mk_fpa_div(...) keep((::Z3_mk_fpa_div)(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) keep((::Z3_mk_fpa_eq)(__VA_ARGS__))
#define Z3_mk_fpa_fma(...) keep((::Z3_mk_fpa_fma)(__VA_ARGS__))
#define Z3_mk_fpa_geq(...) keep((::Z3_mk_fpa_geq)(__VA_ARGS__))
#define Z3_mk_fpa_gt(...) keep((::Z3_mk_fpa_gt)(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) keep((::Z3_mk_fpa_is_nan)(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) keep((::Z3_mk_fpa_leq)(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) keep((::Z3_mk_fpa_lt)(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) keep((::Z3_mk_fpa_mul)(__VA_ARGS__))
#define Z3_mk_fpa_numeral_double(...) keep((::Z3_mk_fpa_numeral_double)(__VA_ARGS__))
#define Z3_mk_fpa_rna(...) keep((::Z3_mk_fpa_rna)(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) keep((::Z3_mk_fpa_rne)(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) keep((::Z3_mk_fpa_round_to_integral)(__VA_ARGS__))
#define Z3_mk_fpa_rtn(...) keep((::Z3_mk_fpa_rtn)(__VA_ARGS__))
#define Z3_mk_fpa_rtp(...) keep((::Z3_mk_fpa_rtp)(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) keep((::Z3_mk_fpa_rtz)(__VA_ARGS__))
#define Z3_mk_fpa_sqrt(...) keep((::Z3_mk_fpa_sqrt)(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) keep((::Z3_mk_fpa_sub)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) keep((::Z3_mk_fpa_to_fp_bv)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) keep((::Z3_mk_fpa_to_fp_float)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) keep((::Z3_mk_fpa_to_fp_signed)(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) keep((::Z3_mk_fpa_to_fp_unsigned)(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) keep((::Z3_mk_fpa_to_ieee_bv)(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) keep((::Z3_mk_fpa_to_sbv)(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) keep((::Z3_mk_fpa_to_ubv)(__VA_ARGS__))
#define Z3_mk_iff(...) keep((::Z3_mk_iff)(__VA_ARGS__))
#define Z3_mk_ite(...) keep((::Z3_mk_ite)(__VA_ARGS__))
#define Z3_mk_not(...) keep((::Z3_mk_not)(__VA_ARGS__))
#define Z3_mk_or(...) keep((::Z3_mk_or)(__VA_ARGS__))
#define Z3_mk_sign_ext(...) keep((::Z3_mk_sign_ext)(__VA_ARGS__))
#define Z3_mk_true(...) keep((::Z3_mk_true)(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) keep((::Z3_mk_unsigned_int64)(__VA_ARGS__))
#define Z3_mk_xor(...) keep((::Z3_mk_xor)(__VA_ARGS__))
#define Z3_mk_zero_ext(...) keep((::Z3_mk_zero_ext)(__VA_ARGS__))
struct SolverStats { uint64_t lia = 0, queries = 0, z3 = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, abstracted = 0; double time = 0, maxTime = 0; };

struct Solver {
  Ctx &cx; Z3_context z; SolverStats st; unsigned timeoutMs; Evaluator ev;
  std::vector<Z3_ast> bvMemo, boolMemo, fpMemo;
  std::vector<Z3_ast> absMemo; // abstraction variable per expr id
  Z3_tactic qfbv; bool abstractMode = false; std::vector<Expr *> absUsed;
  Z3_sort fp32, fp64; Z3_ast rne, rtz, rtn, rtp, rna;
  struct Cached { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 77; for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
  std::unordered_map<std::vector<uint32_t>, Cached, VH> cache;
  FILE *dump = nullptr;
  std::vector<std::shared_ptr<Model>> recent; size_t recentPos = 0;

  uint64_t rs = 88172645463325252ull;
  uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
  Solver(Ctx &c, unsigned tmo) : cx(c), timeoutMs(tmo) {
    Z3_global_param_set("memory_max_size", "3500");
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context_rc(cfg);
    qfbv = Z3_mk_tactic(z, "qfbv"); Z3_tactic_inc_ref(z, qfbv);
    Z3_del_config(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { if (e == Z3_MEMOUT_FAIL || e == Z3_EXCEPTION) return; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
    fp32 = Z3_mk_fpa_sort_32(z); Z3_inc_ref(z, Z3_sort_to_ast(z, fp32));
    fp64 = Z3_mk_fpa_sort_64(z); Z3_inc_ref(z, Z3_sort_to_ast(z, fp64));
    rne = keep(Z3_mk_fpa_rne(z)); rtz = keep(Z3_mk_fpa_rtz(z)); rtn = keep(Z3_mk_fpa_rtn(z)); rtp = keep(Z3_mk_fpa_rtp(z)); rna = keep(Z3_mk_fpa_rna(z));
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_sort sorts[1025] = {};
  Z3_sort bvs(unsigned w) { if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(z, w); Z3_inc_ref(z, Z3_sort_to_ast(z, sorts[w])); } return sorts[w]; }

  static bool isBoolOp(Expr *e) {
    if (e->w != 1) return false;
    switch (e->op) {
    case EQ: case ULT: case ULE: case SLT: case SLE: case UMULO: case SMULO: case FOEQ: case FOLT: case FOLE: case FUNO: return true;
    case AND: case OR: case XOR: case NOT: case ITE: case CONST: return true;
    default: return false;
    }
  }
  Z3_ast get(std::vector<Z3_ast> &m, Expr *e) { return e->id < m.size() ? m[e->id] : nullptr; }
  Z3_ast put(std::vector<Z3_ast> &m, Expr *e, Z3_ast a) { if (e->id >= m.size()) m.resize(e->id + 1024, nullptr); m[e->id] = keep(a); return a; }

  // Abstraction: non-constant multiply/divide are replaced by fresh variables in a first attempt.
  static bool hard(Expr *e) {
    if (e->w < 16 || constDiv(e)) return false;
    switch (e->op) {
    case UDIV: case UREM: case SDIV: case SREM: return true;
    case MUL: case UMULO: case SMULO: return e->b->op != CONST;
    default: return false;
    }
  }
  // two sets of memo tables: exact and abstract
  std::vector<Z3_ast> abv, abool, afp;
  std::vector<Z3_ast> &BV() { return abstractMode ? abv : bvMemo; }
  std::vector<Z3_ast> &BO() { return abstractMode ? abool : boolMemo; }
  std::vector<Z3_ast> &FP() { return abstractMode ? afp : fpMemo; }

  Z3_ast B(Expr *e) {
    if (Z3_ast r = get(BO(), e)) return r;
    Z3_ast r;
    switch (e->op) {
    case CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
    case EQ: if (e->a->w == 1) r = Z3_mk_iff(z, B(e->a), B(e->b)); else r = Z3_mk_eq(z, V(e->a), V(e->b)); break;
    case ULT: r = Z3_mk_bvult(z, V(e->a), V(e->b)); break;
    case ULE: r = Z3_mk_bvule(z, V(e->a), V(e->b)); break;
    case SLT: r = Z3_mk_bvslt(z, V(e->a), V(e->b)); break;
    case SLE: r = Z3_mk_bvsle(z, V(e->a), V(e->b)); break;
    case UMULO: if (abstractMode && hard(e)) { r = absVar(e); r = Z3_mk_eq(z, r, Z3_mk_unsigned_int64(z, 1, bvs(1))); }
      else r = Z3_mk_not(z, Z3_mk_bvmul_no_overflow(z, V(e->a), V(e->b), false)); break;
    case SMULO: if (abstractMode && hard(e)) { r = absVar(e); r = Z3_mk_eq(z, r, Z3_mk_unsigned_int64(z, 1, bvs(1))); }
      else { Z3_ast t[2] = {Z3_mk_not(z, Z3_mk_bvmul_no_overflow(z, V(e->a), V(e->b), true)), Z3_mk_not(z, Z3_mk_bvmul_no_underflow(z, V(e->a), V(e->b)))}; r = Z3_mk_or(z, 2, t); } break;
    case FOEQ: r = Z3_mk_fpa_eq(z, P(e->a), P(e->b)); break;
    case FOLT: r = Z3_mk_fpa_lt(z, P(e->a), P(e->b)); break;
    case FOLE: r = Z3_mk_fpa_leq(z, P(e->a), P(e->b)); break;
    case FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(z, P(e->a)), Z3_mk_fpa_is_nan(z, P(e->b))}; r = Z3_mk_or(z, 2, t); break; }
    case AND: { Z3_ast t[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(z, 2, t); break; }
    case OR: { Z3_ast t[2] = {B(e->a), B(e->b)}; r = Z3_mk_or(z, 2, t); break; }
    case XOR: r = Z3_mk_xor(z, B(e->a), B(e->b)); break;
    case NOT: r = Z3_mk_not(z, B(e->a)); break;
    case ITE: r = Z3_mk_ite(z, B(e->a), B(e->b), B(e->c)); break;
    default: r = Z3_mk_eq(z, V(e), Z3_mk_unsigned_int64(z, 1, bvs(1))); break;
    }
    return put(BO(), e, r);
  }
  Z3_ast absVar(Expr *e) {
    if (Z3_ast r = get(absMemo, e)) return r;
    std::string n = "abs" + std::to_string(e->id);
    return put(absMemo, e, Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bvs(e->w)));
  }
  static bool isFp(Expr *e) {
    switch (e->op) { case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FSQRT: case FFMA: case FPEXT: case FPTRUNC: case SITOFP: case UITOFP:
      case FRNDNE: case FRNDTZ: case FRNDDN: case FRNDUP: case FRNDNA: return true; default: return false; }
  }
  Z3_sort fps(unsigned w) { return w == 64 ? fp64 : fp32; }
  Z3_ast P(Expr *e) { // floating point view
    if (Z3_ast r = get(FP(), e)) return r;
    Z3_ast r;
    switch (e->op) {
    case FADD: r = Z3_mk_fpa_add(z, rne, P(e->a), P(e->b)); break;
    case FSUB: r = Z3_mk_fpa_sub(z, rne, P(e->a), P(e->b)); break;
    case FMUL: r = Z3_mk_fpa_mul(z, rne, P(e->a), P(e->b)); break;
    case FDIV: r = Z3_mk_fpa_div(z, rne, P(e->a), P(e->b)); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(z, rne, P(e->a)); break;
    case FFMA: r = Z3_mk_fpa_fma(z, rne, P(e->a), P(e->b), P(e->c)); break;
    case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_fp_float(z, rne, P(e->a), fps(e->w)); break;
    case SITOFP: r = Z3_mk_fpa_to_fp_signed(z, rne, V(e->a), fps(e->w)); break;
    case UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z, rne, V(e->a), fps(e->w)); break;
    case FRNDNE: r = Z3_mk_fpa_round_to_integral(z, rne, P(e->a)); break;
    case FRNDTZ: r = Z3_mk_fpa_round_to_integral(z, rtz, P(e->a)); break;
    case FRNDDN: r = Z3_mk_fpa_round_to_integral(z, rtn, P(e->a)); break;
    case FRNDUP: r = Z3_mk_fpa_round_to_integral(z, rtp, P(e->a)); break;
    case FRNDNA: r = Z3_mk_fpa_round_to_integral(z, rna, P(e->a)); break;
    case ITE: r = Z3_mk_ite(z, B(e->a), P(e->b), P(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(z, V(e), fps(e->w)); break;
    }
    return put(FP(), e, r);
  }
  // x / c and x % c for a constant c: a fresh quotient q with q*c <= x, x - q*c < c
  static bool constDiv(Expr *e) { return (e->op == UDIV || e->op == UREM) && e->b->op == CONST && e->b->val > 1 && e->w >= 8; }
  std::unordered_map<uint64_t, Z3_ast> quots; // (dividend id, divisor id) -> quotient
  Z3_ast quot(Expr *e) {
    uint64_t k = ((uint64_t)e->a->id << 32) | e->b->id;
    auto &q = quots[k];
    if (!q) { std::string n = "quot" + std::to_string(e->a->id) + "_" + std::to_string(e->b->id); q = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bvs(e->w)); }
    return q;
  }
  void defineQuot(Z3_solver s, Expr *e) {
    Z3_ast q = quot(e), a = V(e->a), c = bvc(e->b->val, e->w);
    Z3_ast p = Z3_mk_bvmul(z, q, c);
    Z3_solver_assert(z, s, Z3_mk_bvule(z, q, bvc(e->a->hi / e->b->val, e->w)));
    Z3_solver_assert(z, s, Z3_mk_bvule(z, p, a));
    Z3_solver_assert(z, s, Z3_mk_bvult(z, Z3_mk_bvsub(z, a, p), c));
  }
  Z3_ast fpc(double d, unsigned w) { return Z3_mk_fpa_numeral_double(z, d, fps(w)); }
  Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z, v & maskw(w), bvs(w)); }
  Z3_ast V(Expr *e) {
    if (Z3_ast r = get(BV(), e)) return r;
    Z3_ast r;
    if (abstractMode && hard(e) && e->w > 1) { absUsed.push_back(e); return put(BV(), e, absVar(e)); }
    if (constDiv(e)) {
      if (e->op == UDIV) r = quot(e); else r = Z3_mk_bvsub(z, V(e->a), Z3_mk_bvmul(z, quot(e), bvc(e->b->val, e->w)));
      return put(BV(), e, r);
    }
    if (isBoolOp(e) && e->op != CONST) r = Z3_mk_ite(z, B(e), bvc(1, 1), bvc(0, 1));
    else switch (e->op) {
    case CONST: r = bvc(e->val, e->w); break;
    case VAR: { std::string n = "v" + std::to_string(e->val); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bvs(e->w)); break; }
    case ADD: r = Z3_mk_bvadd(z, V(e->a), V(e->b)); break;
    case SUB: r = Z3_mk_bvsub(z, V(e->a), V(e->b)); break;
    case MUL: r = Z3_mk_bvmul(z, V(e->a), V(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(z, V(e->a), V(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(z, V(e->a), V(e->b)); break;
    case UREM: r = Z3_mk_bvurem(z, V(e->a), V(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(z, V(e->a), V(e->b)); break;
    case AND: r = Z3_mk_bvand(z, V(e->a), V(e->b)); break;
    case OR: r = Z3_mk_bvor(z, V(e->a), V(e->b)); break;
    case XOR: r = Z3_mk_bvxor(z, V(e->a), V(e->b)); break;
    case NOT: r = Z3_mk_bvnot(z, V(e->a)); break;
    case SHL: r = Z3_mk_bvshl(z, V(e->a), V(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(z, V(e->a), V(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(z, V(e->a), V(e->b)); break;
    case ITE: r = Z3_mk_ite(z, B(e->a), V(e->b), V(e->c)); break;
    case EXTRACT: r = Z3_mk_extract(z, e->imm + e->w - 1, e->imm, V(e->a)); break;
    case CONCAT: r = Z3_mk_concat(z, V(e->a), V(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, V(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, V(e->a)); break;
    case FPTOSI: { // x86 semantics for out-of-range
      unsigned cw = e->w <= 32 ? 32 : 64, sw = e->a->w;
      Z3_ast p = P(e->a), in;
      if (cw == 32) { Z3_ast d = sw == 64 ? p : keep(Z3_mk_fpa_to_fp_float(z, rne, p, fp64));
        Z3_ast t[2] = {Z3_mk_fpa_gt(z, d, fpc(-2147483649.0, 64)), Z3_mk_fpa_lt(z, d, fpc(2147483648.0, 64))}; in = Z3_mk_and(z, 2, t); }
      else { Z3_ast t[2] = {Z3_mk_fpa_geq(z, p, fpc(-9223372036854775808.0, sw)), Z3_mk_fpa_lt(z, p, fpc(9223372036854775808.0, sw))}; in = Z3_mk_and(z, 2, t); }
      r = Z3_mk_ite(z, in, Z3_mk_fpa_to_sbv(z, rtz, p, cw), bvc(1ull << (cw - 1), cw));
      if (cw != e->w) r = Z3_mk_extract(z, e->w - 1, 0, r);
      break;
    }
    case FPTOUI: {
      unsigned sw = e->a->w; Z3_ast p = P(e->a);
      if (e->w < 64) { // via signed conversion
        unsigned cw = e->w < 32 ? 32 : 64; Z3_ast in;
        if (cw == 32) { Z3_ast d = sw == 64 ? p : keep(Z3_mk_fpa_to_fp_float(z, rne, p, fp64));
          Z3_ast t[2] = {Z3_mk_fpa_gt(z, d, fpc(-2147483649.0, 64)), Z3_mk_fpa_lt(z, d, fpc(2147483648.0, 64))}; in = Z3_mk_and(z, 2, t); }
        else { Z3_ast t[2] = {Z3_mk_fpa_gt(z, p, fpc(-9223372036854775808.0, sw)), Z3_mk_fpa_lt(z, p, fpc(9223372036854775808.0, sw))}; in = Z3_mk_and(z, 2, t); }
        r = Z3_mk_ite(z, in, Z3_mk_fpa_to_sbv(z, rtz, p, cw), bvc(1ull << (cw - 1), cw));
        if (cw != e->w) r = Z3_mk_extract(z, e->w - 1, 0, r);
      } else {
        Z3_ast t[2] = {Z3_mk_fpa_geq(z, p, fpc(0.0, sw)), Z3_mk_fpa_lt(z, p, fpc(18446744073709551616.0, sw))};
        Z3_ast u[2] = {Z3_mk_fpa_lt(z, p, fpc(0.0, sw)), Z3_mk_fpa_gt(z, p, fpc(-9223372036854775808.0, sw))};
        r = Z3_mk_ite(z, Z3_mk_and(z, 2, t), Z3_mk_fpa_to_ubv(z, rtz, p, 64),
                      Z3_mk_ite(z, Z3_mk_and(z, 2, u), Z3_mk_fpa_to_sbv(z, rtz, p, 64), bvc(1ull << 63, 64)));
      }
      break;
    }
    default:
      if (isFp(e)) { r = Z3_mk_fpa_to_ieee_bv(z, P(e)); break; }
      fprintf(stderr, "no translation for op %d\n", e->op); _exit(3);
    }
    return put(BV(), e, r);
  }

  std::vector<Expr *> divs; bool anyFp = false, arith = false;
  // collects the hard subterms of e
  void collectHard(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &out) {
    std::vector<Expr *> stk{e};
    while (!stk.empty()) {
      Expr *x = stk.back(); stk.pop_back();
      if (!x || x->op == CONST || x->op == VAR || !seen.insert(x).second) continue;
      if (hard(x)) out.push_back(x);
      if (opaque.count(x)) hasOpaque = true;
      if (isFp(x) || x->op == FOEQ || x->op == FOLT || x->op == FOLE || x->op == FUNO || x->op == FPTOSI || x->op == FPTOUI) anyFp = true;
      if (constDiv(x)) divs.push_back(x);
      if (x->w >= 16 && (x->op == UDIV || x->op == UREM)) arith = true;
      stk.push_back(x->a); stk.push_back(x->b); stk.push_back(x->c);
    }
  }

  Res runZ3(const std::vector<Expr *> &cs, Model *out, const VarVec &vars, bool abs, const std::vector<Expr *> &hards, unsigned tmo, const char *mode = "s") {
    abstractMode = abs;
    Z3_solver s = mode && *mode == 'q' ? Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")) : mode && *mode == 't' ? Z3_mk_solver_from_tactic(z, qfbv) : Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), tmo);
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    for (auto d : divs) defineQuot(s, d);
    for (auto c : cs) Z3_solver_assert(z, s, B(c));
    if (abs) for (auto h : hards) { // sound facts about the abstracted operations
      Z3_ast r = absVar(h);
      if (h->op == UREM) {
        Z3_ast b0 = Z3_mk_eq(z, V(h->b), bvc(0, h->w));
        Z3_ast t1[2] = {b0, Z3_mk_bvult(z, r, V(h->b))};
        Z3_solver_assert(z, s, Z3_mk_or(z, 2, t1));
        Z3_solver_assert(z, s, Z3_mk_bvule(z, r, V(h->a)));
        Z3_ast t2[2] = {Z3_mk_not(z, Z3_mk_bvult(z, V(h->a), V(h->b))), Z3_mk_eq(z, r, V(h->a))};
        Z3_solver_assert(z, s, Z3_mk_or(z, 2, t2));
      } else if (h->op == UDIV) {
        Z3_ast b0 = Z3_mk_eq(z, V(h->b), bvc(0, h->w));
        Z3_ast t1[2] = {b0, Z3_mk_bvule(z, r, V(h->a))};
        Z3_solver_assert(z, s, Z3_mk_or(z, 2, t1));
        Z3_ast t2[2] = {Z3_mk_not(z, Z3_mk_bvult(z, V(h->a), V(h->b))), Z3_mk_eq(z, r, bvc(0, h->w))};
        Z3_solver_assert(z, s, Z3_mk_or(z, 2, t2));
        if (h->b->op == CONST && h->b->val) Z3_solver_assert(z, s, Z3_mk_bvule(z, r, bvc(maskw(h->w) / h->b->val, h->w)));
      }
    }
    if (dump) { fprintf(dump, "; query\n%s\n(check-sat)\n", Z3_solver_to_string(z, s)); fflush(dump); }
    Z3_lbool lr = Z3_solver_check(z, s);
    Res r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
    st.z3++;
    if (r == SAT && out) {
      Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      out->v.clear();
      for (auto vi : vars) {
        Z3_ast va = V(cx.varE[vi]), res; uint64_t x = 0;
        if (Z3_model_eval(z, m, va, true, &res)) { Z3_inc_ref(z, res); Z3_get_numeral_uint64(z, res, (uint64_t *)&x); Z3_dec_ref(z, res); }
        if (vi >= out->v.size()) out->v.resize(vi + 1, 0);
        out->v[vi] = x;
      }
      out->stamp = Model::next();
      Z3_model_dec_ref(z, m);
    }
    Z3_solver_dec_ref(z, s);
    abstractMode = false;
    return r;
  }

  std::unordered_set<Expr *> opaque; // terms a harness names as best left uninterpreted at first
  bool hasOpaque = false;
  Res runLia(const std::vector<Expr *> &cs, Model *out, const VarVec &vars, unsigned tmo, bool useOpaque = false) {
    Z3_solver s = (Z3_mk_simple_solver)(z);
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), tmo);
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    Res r = UNKNOWN;
    { Lia L(z, s);
      if (useOpaque) L.opaque = &opaque;
      for (auto c : cs) L.add(L.B(c));
      if (!L.fail) {
        st.lia++; st.z3++;
        if (getenv("RCSYM_LIADUMP")) { static int dn = 0; std::string fn = std::string(getenv("RCSYM_LIADUMP")) + std::to_string(dn++ % 20) + (useOpaque ? "o" : ""); FILE *f = fopen(fn.c_str(), "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); }
        Z3_lbool lr = Z3_solver_check(z, s);
        r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (r == SAT) {
          Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
          out->v.clear();
          for (auto &v : L.vars) {
            Z3_ast res; uint64_t x = 0;
            if (Z3_model_eval(z, m, v.second, true, &res)) { Z3_inc_ref(z, res); Z3_get_numeral_uint64(z, res, (uint64_t *)&x); Z3_dec_ref(z, res); }
            if (v.first >= out->v.size()) out->v.resize(v.first + 1, 0);
            out->v[v.first] = x;
          }
          out->stamp = Model::next();
          Z3_model_dec_ref(z, m);
        }
      }
    }
    Z3_solver_dec_ref(z, s);
    return r;
  }

  // Is (slice of path relevant to q) && q satisfiable?  base: model satisfying path.
  // On SAT *out is a model of path && q.
  Res check(const std::vector<Expr *> &path, Expr *q, const Model &base, std::shared_ptr<Model> *out) {
    st.queries++;
    if (q->op == CONST) { if (q->val) { if (out) *out = std::make_shared<Model>(base); return SAT; } return UNSAT; }
    if (ev.eval(q, base)) { st.modelHits++; if (out) *out = std::make_shared<Model>(base); return SAT; }
    // slice
    std::vector<Expr *> cs{q};
    std::vector<char> used(path.size(), 0);
    std::vector<char> inv(cx.varNames.size(), 0);
    VarVec vars;
    auto addv = [&](const VarVec *v) { bool ch = false; for (auto x : *v) if (!inv[x]) { inv[x] = 1; vars.push_back(x); ch = true; } return ch; };
    addv(q->vars);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < path.size(); i++) if (!used[i]) {
        bool hit = false; for (auto x : *path[i]->vars) if (inv[x]) { hit = true; break; }
        if (hit) { used[i] = 1; cs.push_back(path[i]); if (addv(path[i]->vars)) ch = true; }
      }
    }
    std::vector<uint32_t> key; key.reserve(cs.size());
    for (auto c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    auto deliver = [&](const Cached &c) {
      if (c.r == SAT && out) { auto m = std::make_shared<Model>(base); for (auto &p : c.m) { if (p.first >= m->v.size()) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; } *out = m; }
      return c.r;
    };
    if (it != cache.end()) { st.cacheHits++; return deliver(it->second); }
    // counterexample reuse
    for (auto &m : recent) {
      bool ok = true;
      for (auto c : cs) if (!ev.eval(c, *m)) { ok = false; break; }
      if (ok) {
        st.modelHits++; Cached c; c.r = SAT; for (auto v : vars) c.m.push_back({v, m->get(v)});
        return deliver(cache[key] = c);
      }
    }
    double t0 = nowS();
    Model m; Res r = UNKNOWN;
    unsigned deep = 0; for (auto c : cs) deep = std::max(deep, c->depth);
    if (deep > 40) { // big terms (hashes): a few guessed models first
      for (int t = 0; t < 6 && r != SAT; t++) {
        m.v.assign(cx.varNames.size(), 0); m.stamp = Model::next();
        for (auto v : vars) m.v[v] = (t == 0 ? ~base.get(v) : t == 1 ? v + 1 : rnd()) & maskw(cx.varW[v]);
        bool ok = true; for (auto c : cs) if (!ev.eval(c, m)) { ok = false; break; }
        if (ok) { r = SAT; st.modelHits++; }
      }
    }
    bool hopeless = false;
    if (r != SAT && deep > 150) { size_t n = 0; std::unordered_set<Expr *> sn; std::vector<Expr *> k(cs.begin(), cs.end());
      while (!k.empty()) { Expr *x = k.back(); k.pop_back(); if (!x || !sn.insert(x).second) continue; if (x->op == ADD || x->op == MUL) n++; k.push_back(x->a); k.push_back(x->b); k.push_back(x->c); }
      hopeless = n > 400; }
    if (r != SAT && !hopeless) {
    std::unordered_set<Expr *> seen; std::vector<Expr *> hards; divs.clear(); anyFp = arith = hasOpaque = false;
    for (auto c : cs) collectHard(c, seen, hards);
    bool done = false;
    static const bool noLia = getenv("RCSYM_NOLIA");
    if (hasOpaque && !anyFp && !noLia) {
      r = runLia(cs, &m, vars, std::min(timeoutMs, 2000u), true);
      if (r == UNSAT) done = true;
      else if (r == SAT) { bool ok = true; for (auto c : cs) if (!ev.eval(c, m)) { ok = false; break; } done = ok; }
    }
    if (!done && arith && !anyFp && !noLia) {
      r = runLia(cs, &m, vars, std::min(timeoutMs, 4000u));
      if (r == UNSAT) done = true;
      else if (r == SAT) { bool ok = true; for (auto c : cs) if (!ev.eval(c, m)) { ok = false; break; } done = ok; }
    }
    if (!done && !hards.empty()) {
      st.abstracted++;
      r = runZ3(cs, &m, vars, true, hards, std::min(timeoutMs, 5000u));
      if (r == UNSAT) done = true;
      else if (r == SAT) { bool ok = true; for (auto c : cs) if (!ev.eval(c, m)) { ok = false; break; } if (ok) done = true; }
    }
    if (!done) {
      // most queries are easy for the incremental core; bit-blasting with preprocessing is better on the rest
      static const char *forced = getenv("RCSYM_SOLVER");
      if (forced || anyFp) r = runZ3(cs, &m, vars, false, hards, timeoutMs, forced ? forced : "s");
      else {
        r = runZ3(cs, &m, vars, false, hards, std::min(timeoutMs, 300u));
        if (r == UNKNOWN) r = runZ3(cs, &m, vars, false, hards, timeoutMs, "q");
      }
      if (r == SAT) for (auto c : cs) if (!ev.eval(c, m)) {
        // NaN payloads may differ between z3 and the host; re-check is then inconclusive
        fprintf(stderr, "warning: model does not satisfy constraint (fp?)\n"); r = UNKNOWN; break; }
    }
    }
    if (getenv("RCSYM_SLOW") && nowS() - t0 > atof(getenv("RCSYM_SLOW"))) fprintf(stderr, "slow %.2fs %d: %s  [%zu]\n", nowS() - t0, (int)r, show(q, 9).c_str(), cs.size());
    double dt = nowS() - t0; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
    if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
    Cached c; c.r = r;
    if (r == SAT) {
      for (auto v : vars) c.m.push_back({v, m.get(v)});
      auto mp = std::make_shared<Model>(m);
      if (recent.size() < 16) recent.push_back(mp); else recent[recentPos++ % 16] = mp;
    }
    return deliver(cache[key] = c);
  }
};

} // namespace sx
#undef Z3_mk_and
#undef Z3_mk_bvadd
#undef Z3_mk_bvand
#undef Z3_mk_bvashr
#undef Z3_mk_bvlshr
#undef Z3_mk_bvmul
#undef Z3_mk_bvmul_no_overflow
#undef Z3_mk_bvmul_no_underflow
#undef Z3_mk_bvnot
#undef Z3_mk_bvor
#undef Z3_mk_bvsdiv
#undef Z3_mk_bvshl
#undef Z3_mk_bvsle
#undef Z3_mk_bvslt
#undef Z3_mk_bvsrem
#undef Z3_mk_bvsub
#undef Z3_mk_bvudiv
#undef Z3_mk_bvule
#undef Z3_mk_bvult
#undef Z3_mk_bvurem
#undef Z3_mk_bvxor
#undef Z3_mk_concat
#undef Z3_mk_const
#undef Z3_mk_eq
#undef Z3_mk_extract
#undef Z3_mk_false
#undef Z3_mk_fpa_add
#undef Z3_mk_fpa_div
#undef Z3_mk_fpa_eq
#undef Z3_mk_fpa_fma
#undef Z3_mk_fpa_geq
#undef Z3_mk_fpa_gt
#undef Z3_mk_fpa_is_nan
#undef Z3_mk_fpa_leq
#undef Z3_mk_fpa_lt
#undef Z3_mk_fpa_mul
#undef Z3_mk_fpa_numeral_double
#undef Z3_mk_fpa_rna
#undef Z3_mk_fpa_rne
#undef Z3_mk_fpa_round_to_integral
#undef Z3_mk_fpa_rtn
#undef Z3_mk_fpa_rtp
#undef Z3_mk_fpa_rtz
#undef Z3_mk_fpa_sqrt
#undef Z3_mk_fpa_sub
#undef Z3_mk_fpa_to_fp_bv
#undef Z3_mk_fpa_to_fp_float
#undef Z3_mk_fpa_to_fp_signed
#undef Z3_mk_fpa_to_fp_unsigned
#undef Z3_mk_fpa_to_ieee_bv
#undef Z3_mk_fpa_to_sbv
#undef Z3_mk_fpa_to_ubv
#undef Z3_mk_iff
#undef Z3_mk_ite
#undef Z3_mk_not
#undef Z3_mk_or
#undef Z3_mk_sign_ext
#undef Z3_mk_true
#undef Z3_mk_unsigned_int64
#undef Z3_mk_xor
#undef Z3_mk_zero_ext
