#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <unistd.h>

SolverStats g_sstats;
bool g_useDom = true;
static Z3_context ctx = nullptr;
static Z3_solver bvSolver = nullptr, fpSolver = nullptr;
static uint32_t gen = 1;
static uint64_t rlimit = 60000000ull;
static Z3_sort sortF32, sortF64;
static Z3_ast rms[5];
static std::vector<Z3_ast> varAst;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }

static Z3_solver mkSolver(const char* logic) {
  Z3_solver s = logic ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic)) : Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)std::min<uint64_t>(rlimit, 0xfffffff0u));
  Z3_solver_set_params(ctx, s, p);
  return s;
}
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);     // reference counting off: asts live as long as the context
  Z3_set_error_handler(ctx, errh);
  bvSolver = mkSolver("QF_BV");
  fpSolver = mkSolver("QF_BVFP");
  sortF32 = Z3_mk_fpa_sort_32(ctx);
  sortF64 = Z3_mk_fpa_sort_64(ctx);
  rms[0] = Z3_mk_fpa_rne(ctx); rms[1] = Z3_mk_fpa_rna(ctx); rms[2] = Z3_mk_fpa_rtp(ctx);
  rms[3] = Z3_mk_fpa_rtn(ctx); rms[4] = Z3_mk_fpa_rtz(ctx);
}
void solverReset() { ctx = nullptr; gen++; varAst.clear(); }
void solverSetRlimit(uint64_t r) { rlimit = r; }
static std::atomic<bool> aborted{false};
void solverAbort() { aborted = true; if (ctx) Z3_interrupt(ctx); }

static Z3_ast lower(E e);
static Z3_ast num(u128 v, unsigned w) {
  char buf[64]; int i = 63; buf[i] = 0;
  if (v == 0) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w));
}
static Z3_ast asBV(E e) {   // BV of width e->w even for w==1
  Z3_ast a = lower(e);
  if (e->w == 1) return Z3_mk_ite(ctx, a, num(1, 1), num(0, 1));
  return a;
}
static Z3_ast fromBV(Z3_ast a, unsigned w) { return w == 1 ? Z3_mk_eq(ctx, a, num(1, 1)) : a; }
static Z3_sort fsort(unsigned w) { return w == 64 ? sortF64 : sortF32; }
static Z3_ast lowerF(E e) {  // FP-sorted term
  if (e->z3fgen == gen) return (Z3_ast)e->z3f;
  Z3_ast r;
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(ctx, rms[0], lowerF(a), lowerF(b)); break;
    case Op::FSub: r = Z3_mk_fpa_sub(ctx, rms[0], lowerF(a), lowerF(b)); break;
    case Op::FMul: r = Z3_mk_fpa_mul(ctx, rms[0], lowerF(a), lowerF(b)); break;
    case Op::FDiv: r = Z3_mk_fpa_div(ctx, rms[0], lowerF(a), lowerF(b)); break;
    case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rms[0], lowerF(a)); break;
    case Op::FRnd: r = Z3_mk_fpa_round_to_integral(ctx, rms[e->aux], lowerF(a)); break;
    case Op::FConv: r = Z3_mk_fpa_to_fp_float(ctx, rms[0], lowerF(a), fsort(e->w)); break;
    case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rms[0], asBV(a), fsort(e->w)); break;
    case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rms[0], asBV(a), fsort(e->w)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, lower(a), lowerF(b), lowerF(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, asBV(e), fsort(e->w)); break;
  }
  e->z3f = r; e->z3fgen = gen;
  return r;
}
static Z3_ast fconst(double d, unsigned w) { return Z3_mk_fpa_numeral_double(ctx, d, fsort(w)); }
static Z3_ast lowerRaw(E e) {
  E a = e->k[0], b = e->k[1];
  unsigned w = e->w;
  switch (e->op) {
    case Op::Const: return w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->c, w);
    case Op::Var: {
      char nm[32]; snprintf(nm, sizeof nm, "v%u", e->aux);
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w));
    }
    case Op::Add: return Z3_mk_bvadd(ctx, asBV(a), asBV(b));
    case Op::Sub: return Z3_mk_bvsub(ctx, asBV(a), asBV(b));
    case Op::Mul: return fromBV(Z3_mk_bvmul(ctx, asBV(a), asBV(b)), w);
    case Op::UDiv: return fromBV(Z3_mk_bvudiv(ctx, asBV(a), asBV(b)), w);
    case Op::SDiv: return fromBV(Z3_mk_bvsdiv(ctx, asBV(a), asBV(b)), w);
    case Op::URem: return fromBV(Z3_mk_bvurem(ctx, asBV(a), asBV(b)), w);
    case Op::SRem: return fromBV(Z3_mk_bvsrem(ctx, asBV(a), asBV(b)), w);
    case Op::Shl: return fromBV(Z3_mk_bvshl(ctx, asBV(a), asBV(b)), w);
    case Op::LShr: return fromBV(Z3_mk_bvlshr(ctx, asBV(a), asBV(b)), w);
    case Op::AShr: return fromBV(Z3_mk_bvashr(ctx, asBV(a), asBV(b)), w);
    case Op::And: if (w == 1) { Z3_ast t[2] = {lower(a), lower(b)}; return Z3_mk_and(ctx, 2, t); } return Z3_mk_bvand(ctx, lower(a), lower(b));
    case Op::Or: if (w == 1) { Z3_ast t[2] = {lower(a), lower(b)}; return Z3_mk_or(ctx, 2, t); } return Z3_mk_bvor(ctx, lower(a), lower(b));
    case Op::Xor:
      if (w == 1) { if (b->isConst()) return b->c ? Z3_mk_not(ctx, lower(a)) : lower(a); return Z3_mk_xor(ctx, lower(a), lower(b)); }
      return Z3_mk_bvxor(ctx, lower(a), lower(b));
    case Op::Eq: return Z3_mk_eq(ctx, lower(a), lower(b));
    case Op::Ult: return Z3_mk_bvult(ctx, asBV(a), asBV(b));
    case Op::Ule: return Z3_mk_bvule(ctx, asBV(a), asBV(b));
    case Op::Slt: return Z3_mk_bvslt(ctx, asBV(a), asBV(b));
    case Op::Sle: return Z3_mk_bvsle(ctx, asBV(a), asBV(b));
    case Op::Ite: return Z3_mk_ite(ctx, lower(a), lower(b), lower(e->k[2]));
    case Op::ZExt: return Z3_mk_zero_ext(ctx, w - a->w, asBV(a));
    case Op::SExt: return Z3_mk_sign_ext(ctx, w - a->w, asBV(a));
    case Op::Extract: return fromBV(Z3_mk_extract(ctx, e->aux + w - 1, e->aux, asBV(a)), w);
    case Op::Concat: return Z3_mk_concat(ctx, asBV(a), asBV(b));
    case Op::FEq: return Z3_mk_fpa_eq(ctx, lowerF(a), lowerF(b));
    case Op::FLt: return Z3_mk_fpa_lt(ctx, lowerF(a), lowerF(b));
    case Op::FLe: return Z3_mk_fpa_leq(ctx, lowerF(a), lowerF(b));
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FSqrt: case Op::FRnd: case Op::FConv: case Op::SIToF: case Op::UIToF: {
      Z3_ast f = lowerF(e);
      Z3_ast bv = Z3_mk_fpa_to_ieee_bv(ctx, f);
      if (e->op == Op::SIToF || e->op == Op::UIToF) return bv;
      return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), num(w == 64 ? (u128)0x7ff8000000000000ULL : (u128)0x7fc00000u, w), bv);
    }
    case Op::FToSI: case Op::FToUI: {
      bool sg = e->op == Op::FToSI;
      Z3_ast f = lowerF(a);
      Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rms[4], f);
      double hi = sg ? __builtin_ldexp(1.0, w - 1) : __builtin_ldexp(1.0, w);
      double lo = sg ? -__builtin_ldexp(1.0, w - 1) : 0.0;
      Z3_ast in[2] = {Z3_mk_fpa_lt(ctx, t, fconst(hi, a->w)), Z3_mk_fpa_geq(ctx, t, fconst(lo, a->w))};
      Z3_ast ok = Z3_mk_and(ctx, 2, in);
      Z3_ast v = sg ? Z3_mk_fpa_to_sbv(ctx, rms[4], f, w) : Z3_mk_fpa_to_ubv(ctx, rms[4], f, w);
      return Z3_mk_ite(ctx, ok, v, num((u128)1 << (w - 1), w));
    }
    case Op::FRem: default: fprintf(stderr, "cannot lower op %d\n", (int)e->op); _exit(3); return nullptr;
  }
}
static Z3_ast lower(E e) {
  if (e->z3gen == gen) return (Z3_ast)e->z3v;
  Z3_ast r = lowerRaw(e);
  e->z3v = r; e->z3gen = gen;
  return r;
}

// ---------- single byte-variable domains ----------
static bool byteVarPred(E e) { return e->vars->size() == 1 && g_vars[(*e->vars)[0]].w <= 8; }
static const uint64_t* domain(E e) {
  if (e->dom) return e->dom;
  auto* d = new uint64_t[4]();
  uint32_t v = (*e->vars)[0];
  unsigned n = 1u << g_vars[v].w;
  Model m; m.v.assign(v + 1, 0);
  for (unsigned i = 0; i < n; i++) {
    m.stamp = newStamp(); m.v[v] = i;
    if (evalExpr(e, m)) d[i >> 6] |= 1ull << (i & 63);
  }
  e->dom = d;
  return d;
}


// ---------- floating point intervals: cheap refutation before bit-blasting ----------
struct AV { double lo, hi; bool nan; };   // values in [lo,hi], plus NaN if nan
static const double INF = __builtin_inf();
static const AV TOP = {-INF, INF, true};
static std::unordered_map<E, AV> ivFacts, ivMemo;
static bool isF(E e) { return e->op == Op::FAdd || e->op == Op::FSub || e->op == Op::FMul || e->op == Op::FDiv || e->op == Op::FSqrt || e->op == Op::FRnd || e->op == Op::SIToF || e->op == Op::UIToF || e->op == Op::FConv; }
static double dOf(u128 c) { uint64_t u = (uint64_t)c; double d; memcpy(&d, &u, 8); return d; }
static u128 iub(E e, int depth = 0) { // unsigned upper bound
  u128 m = maskW(e->w);
  if (depth > 12) return m;
  switch (e->op) {
    case Op::Const: return e->c;
    case Op::ZExt: return iub(e->k[0], depth + 1);
    case Op::And: return std::min(iub(e->k[0], depth + 1), iub(e->k[1], depth + 1));
    case Op::LShr: if (e->k[1]->isConst() && e->k[1]->c < e->w) return iub(e->k[0], depth + 1) >> (unsigned)e->k[1]->c; return m;
    case Op::UDiv: if (e->k[1]->isConst() && e->k[1]->c) return iub(e->k[0], depth + 1) / e->k[1]->c; return m;
    case Op::URem: if (e->k[1]->isConst() && e->k[1]->c) return std::min(iub(e->k[0], depth + 1), e->k[1]->c - 1); return m;
    case Op::Add: { u128 a = iub(e->k[0], depth + 1), b = iub(e->k[1], depth + 1); return a <= m - b ? a + b : m; }
    case Op::Mul: { u128 a = iub(e->k[0], depth + 1), b = iub(e->k[1], depth + 1); return b == 0 || a <= m / b ? a * b : m; }
    case Op::Ite: return std::max(iub(e->k[1], depth + 1), iub(e->k[2], depth + 1));
    default: return m;
  }
}
static AV meet(AV a, AV b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi), a.nan && b.nan}; }
static AV iv(E e);
static bool ivContra;   // some expression has no possible value
static AV ivRaw(E e) {
  if (e->isConst()) { double d = dOf(e->c); if (d != d) return {INF, -INF, true}; return {d, d, false}; }
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
    case Op::Ite: { AV x = iv(b), y = iv(e->k[2]); return {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan}; }
    case Op::FAdd: case Op::FSub: {
      AV x = iv(a), y = iv(b); if (e->op == Op::FSub) { double t = y.lo; y.lo = -y.hi; y.hi = -t; }
      if (x.lo > x.hi || y.lo > y.hi) return {INF, -INF, true};
      if (e->op == Op::FSub && a == b && x.lo > -INF && x.hi < INF) return {0, 0, x.nan};
      bool nan = x.nan || y.nan || (x.hi == INF && y.lo == -INF) || (x.lo == -INF && y.hi == INF);
      double lo = x.lo + y.lo, hi = x.hi + y.hi; if (lo != lo) lo = -INF; if (hi != hi) hi = INF; return {lo, hi, nan};
    }
    case Op::FMul: {
      AV x = iv(a), y = iv(b); if (x.lo > x.hi || y.lo > y.hi) return {INF, -INF, true};
      if (a == b) { double l = x.lo <= 0 && x.hi >= 0 ? 0 : std::min(x.lo * x.lo, x.hi * x.hi); return {l, std::max(x.lo * x.lo, x.hi * x.hi), x.nan}; }
      bool inf = x.hi == INF || x.lo == -INF || y.hi == INF || y.lo == -INF, z = (x.lo <= 0 && x.hi >= 0) || (y.lo <= 0 && y.hi >= 0);
      double c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; double lo = INF, hi = -INF;
      for (double v : c) { if (v != v) v = 0; lo = std::min(lo, v); hi = std::max(hi, v); }
      return {lo, hi, x.nan || y.nan || (inf && z)};
    }
    case Op::FDiv: {
      AV x = iv(a), y = iv(b); if (x.lo > x.hi || y.lo > y.hi) return {INF, -INF, true};
      if (y.lo == 0 && y.hi == 0 && x.lo == 0 && x.hi == 0) return {INF, -INF, true};
      if (!(y.lo > 0)) return TOP;
      double c[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}; double lo = INF, hi = -INF; bool nan = x.nan || y.nan;
      for (double v : c) { if (v != v) { nan = true; v = 0; } lo = std::min(lo, v); hi = std::max(hi, v); }
      if (y.hi == INF && (x.hi == INF || x.lo == -INF)) nan = true;
      return {lo, hi, nan};
    }
    case Op::UIToF: { u128 u = iub(a); return {0, (double)(unsigned __int128)u * 1.0000001, false}; }
    case Op::SIToF: { u128 u = iub(a); if (u <= maskW(a->w - 1)) return {0, (double)u * 1.0000001, false}; double l = -__builtin_ldexp(1.0, a->w - 1); return {l, -l, false}; }
    default: return TOP;
  }
}
static AV iv(E e) {
  if (e->w != 64) return TOP;
  auto it = ivMemo.find(e); if (it != ivMemo.end()) return it->second;
  AV r = ivRaw(e);
  auto f = ivFacts.find(e); if (f != ivFacts.end()) r = meet(r, f->second);
  if (r.lo > r.hi && !r.nan) ivContra = true;
  ivMemo[e] = r; return r;
}
static int truth(E e, int depth = 0) { // 1 definitely true, 0 definitely false, -1 unknown
  if (e->isConst()) return e->c != 0;
  if (e->w != 1 || depth > 20) return -1;
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
    case Op::Xor: { int x = truth(a, depth + 1), y = truth(b, depth + 1); return x < 0 || y < 0 ? -1 : x ^ y; }
    case Op::And: { int x = truth(a, depth + 1), y = truth(b, depth + 1); if (x == 0 || y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
    case Op::Or: { int x = truth(a, depth + 1), y = truth(b, depth + 1); if (x == 1 || y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
    case Op::FLt: { if (a->w != 64) return -1; AV x = iv(a), y = iv(b); if (x.lo > x.hi || y.lo > y.hi) return 0; if (!x.nan && !y.nan && x.hi < y.lo) return 1; return x.lo >= y.hi ? 0 : -1; }
    case Op::FLe: { if (a->w != 64) return -1; AV x = iv(a), y = iv(b); if (x.lo > x.hi || y.lo > y.hi) return 0; if (!x.nan && !y.nan && x.hi <= y.lo) return 1; return x.lo > y.hi ? 0 : -1; }
    case Op::FEq: { if (a->w != 64) return -1; AV x = iv(a), y = iv(b); if (x.lo > x.hi || y.lo > y.hi) return 0; if (a == b) { if (!x.nan) return 1; return x.lo > x.hi ? 0 : -1; } if (x.lo > y.hi || y.lo > x.hi) return 0; if (!x.nan && !y.nan && x.lo == x.hi && y.lo == y.hi && x.lo == y.lo) return 1; return -1; }
    default: return -1;
  }
}
static void learn(E p, bool v, int depth = 0) {
  if (depth > 8) return;
  E a = p->k[0], b = p->k[1];
  auto add = [&](E e, AV f) { if (e->isConst()) return; auto it = ivFacts.find(e); if (it == ivFacts.end()) ivFacts[e] = f; else it->second = meet(it->second, f); };
  if (p->op == Op::Xor && b->isConst()) return learn(a, v ^ (b->c != 0), depth + 1);
  if (p->op == Op::And && p->w == 1 && v) { learn(a, true, depth + 1); learn(b, true, depth + 1); return; }
  if (p->op == Op::Or && p->w == 1 && !v) { learn(a, false, depth + 1); learn(b, false, depth + 1); return; }
  if ((p->op == Op::FLt || p->op == Op::FLe || p->op == Op::FEq) && a->w == 64) {
    ivMemo.clear(); AV x = iv(a), y = iv(b);
    if (v) {
      if (p->op == Op::FEq) { add(a, {std::max(-INF, y.lo), y.hi, false}); add(b, {x.lo, x.hi, false}); if (a == b) add(a, {-INF, INF, false}); }
      else { double hi = y.hi, lo = x.lo; if (p->op == Op::FLt) { hi = __builtin_nextafter(hi, -INF); lo = __builtin_nextafter(lo, INF); } add(a, {-INF, hi, false}); add(b, {lo, INF, false}); }
    } else {
      if (p->op == Op::FEq) { if (a == b) add(a, {INF, -INF, true}); }
      else if (!x.nan && !y.nan) { // not(a<b): a>=b
        double lo = y.lo, hi = x.hi; if (p->op == Op::FLe) { lo = __builtin_nextafter(lo, INF); hi = __builtin_nextafter(hi, -INF); }
        add(a, {lo, INF, false}); add(b, {-INF, hi, false});
      } else if (!y.nan) add(a, {p->op == Op::FLe ? __builtin_nextafter(y.lo, INF) : y.lo, INF, true});
      else if (!x.nan) add(b, {-INF, p->op == Op::FLe ? __builtin_nextafter(x.hi, -INF) : x.hi, true});
    }
  }
}
static bool ivRefutes(const std::vector<E>& sl, E cond) {
  ivFacts.clear(); ivMemo.clear(); ivContra = false;
  for (int round = 0; round < 2; round++) { for (E p : sl) learn(p, true); learn(cond, true); }
  ivMemo.clear();
  if (truth(cond) == 0) return true;
  for (E p : sl) if (truth(p) == 0) return true;
  return ivContra;
}
static uint64_t qrng = 88172645463325252ull;
static uint64_t qnext() { qrng ^= qrng << 13; qrng ^= qrng >> 7; qrng ^= qrng << 17; return qrng; }
static void gatherConsts(E e, std::vector<uint64_t>& out, std::unordered_set<E>& seen, int depth) {
  if (depth > 30 || out.size() > 40 || !seen.insert(e).second) return;
  if (e->isConst()) { if (e->w >= 16) out.push_back((uint64_t)e->c); return; }
  for (int i = 0; i < 3; i++) if (e->k[i]) gatherConsts(e->k[i], out, seen, depth + 1);
}
// Guided guessing: starting from the state's own model (which satisfies the path condition) change
// variables of violated constraints; every hit is verified by evaluation.
static bool quickSat(const std::vector<E>& sl, E cond, const std::vector<uint32_t>& vars, const Model& base, std::vector<std::pair<uint32_t, uint64_t>>& vals, int tries) {
  static const double ds[] = {0, 1, -1, 2, 0.5, 3, 100, -2, INF, -INF, 1e300, -1e300, 1e-300, 5e9};
  std::vector<uint64_t> cand; for (double d : ds) { uint64_t u; memcpy(&u, &d, 8); cand.push_back(u); }
  cand.push_back(0x7ff8000000000000ull); for (uint64_t u : {0ull, 1ull, 2ull, 7ull, 100ull}) cand.push_back(u);
  std::vector<uint64_t> cs; std::unordered_set<E> seen; gatherConsts(cond, cs, seen, 0);
  for (uint64_t c : cs) { cand.push_back(c); cand.push_back(c + 1); cand.push_back(c - 1); }
  Model m; m.v = base.v; if (m.v.size() < g_vars.size()) m.v.resize(g_vars.size(), 0);
  bool wide = false; for (auto v : vars) if (g_vars[v].w >= 16) wide = true;
  if (!wide) return false;
  const E* bad = nullptr; E all1; std::vector<E> viol;
  auto score = [&] { m.stamp = newStamp(); viol.clear(); if (!evalExpr(cond, m)) viol.push_back(cond); for (E p : sl) if (!evalExpr(p, m)) viol.push_back(p); return viol.size(); };
  (void)bad; (void)all1;
  auto take = [&] { for (auto v : vars) vals.push_back({v, m.v[v]}); return true; };
  size_t cur = score(); if (cur == 0) return take();
  std::vector<E> curViol = viol;
  for (int i = 0; i < tries; i++) {
    E c = curViol[qnext() % curViol.size()];
    const VarSet& cv = *c->vars; if (cv.empty()) return false;
    uint32_t v = cv[qnext() % cv.size()]; uint64_t mk = (uint64_t)maskW(g_vars[v].w), old = m.v[v], nv;
    switch (qnext() % 5) {
      case 0: case 1: nv = cand[qnext() % cand.size()]; break;
      case 2: { uint32_t o = vars[qnext() % vars.size()]; nv = m.v[o] + (qnext() % 3) - 1; break; }
      case 3: nv = old + (int64_t)(qnext() % 5) - 2; break;
      default: { uint32_t o = vars[qnext() % vars.size()]; uint64_t k = cand[qnext() % cand.size()]; nv = qnext() & 1 ? m.v[o] + k : m.v[o] - k; break; }
    }
    m.v[v] = nv & mk; if (m.v[v] == old) continue;
    size_t sc = score();
    if (sc == 0) return take();
    if (sc <= cur || qnext() % 25 == 0) { cur = sc; curViol = viol; } else m.v[v] = old;
    if (i % 150 == 149) { for (auto x : vars) m.v[x] = base.get(x); cur = score(); curViol = viol; }
  }
  return false;
}

static void gatherAtoms(E e, std::vector<E>& out, std::unordered_set<E>& seen, int depth) {
  if (depth > 12 || out.size() > 24 || e->vars->empty() || !seen.insert(e).second) return;
  switch (e->op) {
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::FEq: case Op::FLt: case Op::FLe:
      if (e->k[0]->w > 1) { out.push_back(e); return; } break;
    default: break;
  }
  if (e->w == 1) for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->w == 1) gatherAtoms(e->k[i], out, seen, depth + 1);
}
// Boundary guessing: for every comparison find the values of each wide variable where its outcome flips
// (bisection by evaluation, as if the sides were monotonic), and try the values around them. Hits are verified by evaluation.
static bool edgeSat(const std::vector<E>& sl, E cond, const std::vector<uint32_t>& vars, const Model& base, std::vector<std::pair<uint32_t, uint64_t>>& vals) {
  std::vector<uint32_t> wide; for (auto v : vars) if (g_vars[v].w >= 16) wide.push_back(v);
  if (wide.empty() || wide.size() > 4) return false;
  std::vector<E> atoms; std::unordered_set<E> seen; gatherAtoms(cond, atoms, seen, 0); for (E p : sl) gatherAtoms(p, atoms, seen, 0);
  Model m; m.v = base.v; if (m.v.size() < g_vars.size()) m.v.resize(g_vars.size(), 0);
  auto holds = [&] { m.stamp = newStamp(); if (!evalExpr(cond, m)) return false; for (E p : sl) if (!evalExpr(p, m)) return false; return true; };
  long budget = 200000;
  for (auto v : wide) {
    uint64_t old = m.v[v], mk = (uint64_t)maskW(g_vars[v].w); std::vector<uint64_t> cand;
    for (E a : atoms) {
      bool has = false; for (auto x : *a->vars) has |= x == v; if (!has) continue;
      auto at = [&](E q, uint64_t x) { m.v[v] = x & mk; m.stamp = newStamp(); budget--; return evalExpr(q, m); };
      // sample points: powers of two and the current value
      std::vector<uint64_t> pt{0, 1, old, mk}; for (unsigned b = 1; b < g_vars[v].w; b++) { pt.push_back(1ull << b); pt.push_back(3ull << (b - 1)); } for (auto& x : pt) x &= mk;
      std::sort(pt.begin(), pt.end()); pt.erase(std::unique(pt.begin(), pt.end()), pt.end());
      bool eq = a->op == Op::Eq || a->op == Op::FEq; E l = a->k[0], r = a->k[1];
      auto side = [&](uint64_t x) -> int {
        if (!eq) return (int)at(a, x);
        m.v[v] = x & mk; m.stamp = newStamp(); budget--; u128 p = evalExpr(l, m), q = evalExpr(r, m);
        if (l->fp && a->op == Op::FEq) return p == q ? 0 : fpCmp(Op::FLt, p, q, l->w) ? -1 : 1;
        return p == q ? 0 : p < q ? -1 : 1;
      };
      for (size_t i = 0; i + 1 < pt.size() && budget > 0; i++) {
        uint64_t lo = pt[i], hi = pt[i + 1]; int sl0 = side(lo), sh0 = side(hi); if (sl0 == sh0) continue;
        while (hi - lo > 1) { uint64_t mid = lo + (hi - lo) / 2; (side(mid) == sl0 ? lo : hi) = mid; }
        for (int d = -4; d <= 4; d++) { cand.push_back(lo + (uint64_t)(int64_t)d); cand.push_back(hi + (uint64_t)(int64_t)d); }
        // a variable that only matters in its upper bits: steps of its granularity
        for (unsigned b = 1; b < 62; b++) { uint64_t st = 1ull << b; if (at(l, lo) == at(l, lo - st) && at(r, lo) == at(r, lo - st)) continue; for (int d = 1; d <= 4; d++) { cand.push_back(lo - st * d); cand.push_back(hi + st * d); } break; }
        if (cand.size() > 4000) break;
      }
      m.v[v] = old;
    }
    std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
    for (uint64_t x : cand) { m.v[v] = x & mk; if (holds()) { for (auto y : vars) vals.push_back({y, m.v[y]}); return true; } }
    m.v[v] = old;
  }
  return false;
}

struct KeyHash { size_t operator()(const std::vector<uint32_t>& k) const { uint64_t h = k.size(); for (auto x : k) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); } return h; } };
struct CacheEnt { SR r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> cache, acache;

SR solveCheck(const std::vector<E>& pc, E cond, const Model& base, ModelP& out, bool isAssert) {
  g_sstats.queries++;
  if (isAssert) g_sstats.assertQueries++;
  if (cond->isConst() && !cond->c) { if (isAssert) g_sstats.assertUnsat++; return SR::Unsat; }
  if (aborted) return SR::Unknown;
  // slice
  static std::vector<uint32_t> mark; static uint32_t mgen = 0;
  mgen++;
  if (mark.size() < g_vars.size()) mark.resize(g_vars.size() + 64, 0);
  std::vector<uint32_t> vars(*cond->vars);
  for (auto v : vars) mark[v] = mgen;
  std::vector<E> sl;
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      E p = pc[i];
      bool hit = false;
      for (auto v : *p->vars) if (mark[v] == mgen) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; sl.push_back(p);
      for (auto v : *p->vars) if (mark[v] != mgen) { mark[v] = mgen; vars.push_back(v); ch = true; }
    }
  }
  auto mkModel = [&](const std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    auto m = std::make_shared<Model>();
    m->v = base.v;
    if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size(), 0);
    for (auto& p : vals) m->v[p.first] = p.second;
    m->stamp = newStamp();
    out = m;
  };
  // byte domain reasoning
  if (g_useDom) {
    if (vars.size() == 1 && g_vars[vars[0]].w <= 8 && !isAssert) {
      const uint64_t* d0 = domain(cond);
      uint64_t d[4] = {d0[0], d0[1], d0[2], d0[3]};
      for (E p : sl) { auto q = domain(p); for (int i = 0; i < 4; i++) d[i] &= q[i]; }
      g_sstats.domHits++;
      int pick = -1;
      for (int i = 0; i < 256; i++) if ((d[i >> 6] >> (i & 63)) & 1) { pick = i; if (i >= 32 && i < 127) break; }
      if (pick < 0) { g_sstats.unsat++; return SR::Unsat; }
      g_sstats.sat++;
      mkModel({{vars[0], (uint64_t)pick}});
      return SR::Sat;
    }
    if (byteVarPred(cond) && !isAssert) {   // quick unsat through the variable's own domain
      const uint64_t* d0 = domain(cond);
      uint64_t d[4] = {d0[0], d0[1], d0[2], d0[3]};
      uint32_t v = (*cond->vars)[0];
      for (E p : sl) if (p->vars->size() == 1 && (*p->vars)[0] == v) { auto q = domain(p); for (int i = 0; i < 4; i++) d[i] &= q[i]; }
      if (!(d[0] | d[1] | d[2] | d[3])) { g_sstats.domHits++; g_sstats.unsat++; return SR::Unsat; }
    }
  }
  std::vector<uint32_t> key;
  for (E p : sl) key.push_back(p->id);
  std::sort(key.begin(), key.end());
  key.push_back(0xffffffffu); key.push_back(cond->id);
  auto& C = isAssert ? acache : cache;
  auto it = C.find(key);
  if (it != C.end()) {
    g_sstats.cacheHits++;
    if (it->second.r == SR::Sat) mkModel(it->second.vals);
    if (isAssert && it->second.r == SR::Unsat) g_sstats.assertUnsat++;
    return it->second.r;
  }
  bool fp = cond->fp;
  for (E p : sl) fp |= p->fp;
  if (fp) {   // few admissible bytes: decide over their finite domain, term by term
    bool small = vars.size() <= 6; for (auto v : vars) if (g_vars[v].w > 8) small = false;
    double total = 1; std::vector<std::vector<uint64_t>> dv;
    if (small) for (auto v : vars) {
      uint64_t d[4] = {~0ull, ~0ull, ~0ull, ~0ull};
      for (E p : sl) if (byteVarPred(p) && (*p->vars)[0] == v) { auto q = domain(p); for (int i = 0; i < 4; i++) d[i] &= q[i]; }
      if (byteVarPred(cond) && (*cond->vars)[0] == v) { auto q = domain(cond); for (int i = 0; i < 4; i++) d[i] &= q[i]; }
      dv.emplace_back(); for (unsigned i = 0; i < (1u << g_vars[v].w); i++) if ((d[i >> 6] >> (i & 63)) & 1) dv.back().push_back(i);
      total *= (double)dv.back().size();
    }
    if (small && total <= 4096) {
      g_sstats.domHits++;
      std::vector<E> rest; for (E p : sl) if (!byteVarPred(p)) rest.push_back(p);
      if (!byteVarPred(cond)) rest.push_back(cond);
      Model m; m.v = base.v; if (m.v.size() < g_vars.size()) m.v.resize(g_vars.size(), 0);
      std::vector<size_t> ix(vars.size(), 0); CacheEnt q; q.r = SR::Unsat;
      for (double k = 0; k < total; k++) {
        for (size_t i = 0; i < vars.size(); i++) m.v[vars[i]] = dv[i][ix[i]];
        m.stamp = newStamp(); bool ok = true;
        for (E p : rest) if (!evalExpr(p, m)) { ok = false; break; }
        if (ok) { q.r = SR::Sat; for (auto v : vars) q.vals.push_back({v, m.v[v]}); break; }
        for (size_t i = 0; i < ix.size(); i++) { if (++ix[i] < dv[i].size()) break; ix[i] = 0; }
      }
      if (q.r == SR::Sat) { g_sstats.sat++; mkModel(q.vals); } else { g_sstats.unsat++; if (isAssert) g_sstats.assertUnsat++; }
      C.emplace(std::move(key), q); return q.r;
    }
  }
  if (fp) {
    if (ivRefutes(sl, cond)) { g_sstats.intervalHits++; g_sstats.unsat++; if (isAssert) g_sstats.assertUnsat++; C.emplace(std::move(key), CacheEnt{SR::Unsat, {}}); return SR::Unsat; }
    CacheEnt q; if (quickSat(sl, cond, vars, base, q.vals, 600)) { g_sstats.guessHits++; g_sstats.sat++; q.r = SR::Sat; mkModel(q.vals); C.emplace(std::move(key), q); return SR::Sat; }
  }
  else { CacheEnt q; if (quickSat(sl, cond, vars, base, q.vals, isAssert ? 20 : 60)) { g_sstats.guessHits++; g_sstats.sat++; q.r = SR::Sat; mkModel(q.vals); C.emplace(std::move(key), q); return SR::Sat; } }
  init();
  if (fp) { // the integer part alone may decide
    std::vector<E> is; for (E p : sl) if (!p->fp) is.push_back(p);
    if (!cond->fp) is.push_back(cond);
    if (!is.empty() && is.size() < sl.size() + 1) {
      Z3_solver_reset(ctx, bvSolver); for (E p : is) Z3_solver_assert(ctx, bvSolver, lower(p));
      auto t0 = std::chrono::steady_clock::now();
      Z3_lbool r = Z3_solver_check(ctx, bvSolver);
      g_sstats.z3Calls++; g_sstats.z3Time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (r == Z3_L_FALSE) { g_sstats.unsat++; if (isAssert) g_sstats.assertUnsat++; C.emplace(std::move(key), CacheEnt{SR::Unsat, {}}); return SR::Unsat; }
      if (r == Z3_L_TRUE) {
        Z3_model zm = Z3_solver_get_model(ctx, bvSolver); Z3_model_inc_ref(ctx, zm);
        Model m; m.v = base.v; if (m.v.size() < g_vars.size()) m.v.resize(g_vars.size(), 0);
        for (E p : is) for (auto v : *p->vars) { Z3_ast val; uint64_t x = 0; if (Z3_model_eval(ctx, zm, lower(g_vars[v].e), true, &val)) { if (g_vars[v].w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, val, &x); } m.v[v] = x; }
        Z3_model_dec_ref(ctx, zm);
        m.stamp = newStamp(); CacheEnt q;
        if (quickSat(sl, cond, vars, m, q.vals, 600)) { g_sstats.guessHits++; g_sstats.sat++; q.r = SR::Sat; mkModel(q.vals); C.emplace(std::move(key), q); return SR::Sat; }
      }
    }
  }
  Z3_solver s = fp ? fpSolver : bvSolver;
  Z3_solver_reset(ctx, s);
  for (E p : sl) Z3_solver_assert(ctx, s, lower(p));
  Z3_solver_assert(ctx, s, lower(cond));
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sstats.z3Calls++; g_sstats.z3Time += dt; g_sstats.maxQuery = std::max(g_sstats.maxQuery, dt);
  static const char* slow = getenv("SYMIR_SLOW");
  if (slow && dt > atof(slow)) { fprintf(stderr, "SLOW %.2fs r=%d cond=%s\n", dt, (int)r, exprStr(cond, 9).c_str()); for (E p : sl) fprintf(stderr, "   pc %s\n", exprStr(p, 9).c_str()); }
  CacheEnt ce;
  if (r == Z3_L_TRUE) {
    g_sstats.sat++;
    ce.r = SR::Sat;
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    for (auto v : vars) {
      Z3_ast val;
      uint64_t x = 0;
      if (Z3_model_eval(ctx, m, lower(g_vars[v].e), true, &val)) {
        if (g_vars[v].w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(ctx, val, &x);
      }
      ce.vals.push_back({v, x});
    }
    Z3_model_dec_ref(ctx, m);
    mkModel(ce.vals);
    // the evaluator must agree with z3 (guards against encoding mismatches)
    bool ok = evalExpr(cond, *out) != 0;
    for (E p : sl) ok = ok && evalExpr(p, *out) != 0;
    if (!ok) {
      fprintf(stderr, "MODEL-MISMATCH cond=%s\n", exprStr(cond, 8).c_str());
      for (E p : sl) if (!evalExpr(p, *out)) fprintf(stderr, "   pc %s\n", exprStr(p, 8).c_str());
      for (auto& pv : ce.vals) fprintf(stderr, "   %s=%llx\n", g_vars[pv.first].name.c_str(), (unsigned long long)pv.second);
      ce.r = SR::Unknown; g_sstats.unknown++;
    }
  } else if (r == Z3_L_FALSE) { g_sstats.unsat++; ce.r = SR::Unsat; if (isAssert) g_sstats.assertUnsat++; }
  else if (edgeSat(sl, cond, vars, base, ce.vals) || quickSat(sl, cond, vars, base, ce.vals, 20000)) { g_sstats.guessHits++; g_sstats.sat++; ce.r = SR::Sat; mkModel(ce.vals); }
  else { g_sstats.unknown++; ce.r = SR::Unknown; }
  C.emplace(std::move(key), ce);
  return ce.r;
}
