#include "expr.h"
#include <cmath>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> g_vars;
static uint64_t g_stamp = 1;
uint64_t newStamp() { return ++g_stamp; }

struct EHash { size_t operator()(E e) const { return e->hash; } };
struct EEq {
  bool operator()(E a, E b) const {
    return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->nk == b->nk &&
           a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};
static std::unordered_set<E, EHash, EEq>& table() { static auto* t = new std::unordered_set<E, EHash, EEq>(1 << 16); return *t; }
static uint32_t g_id = 0;
size_t exprCount() { return g_id; }
static const VarSet g_empty;

static inline uint64_t mixh(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

static const VarSet* unite(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a->size() >= b->size()) {
    if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
  } else if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
  auto* r = new VarSet();
  r->reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
  return r;
}

static void bounds(Expr* n) {
  n->lo = 0; n->hi = maskW(n->w);
  E a = n->k[0], b = n->k[1], c = n->k[2];
  switch (n->op) {
    case Op::Const: n->lo = n->hi = n->c; return;
    case Op::ZExt: n->lo = a->lo; n->hi = a->hi; return;
    case Op::Ite: n->lo = std::min(b->lo, c->lo); n->hi = std::max(b->hi, c->hi); return;
    default: break;
  }
  if (n->w > 64 || n->w == 1) return;
  u128 m = maskW(n->w);
  switch (n->op) {
    case Op::Add: if (a->hi + b->hi <= m) { n->lo = a->lo + b->lo; n->hi = a->hi + b->hi; } break;
    case Op::Sub: if (a->lo >= b->hi) { n->lo = a->lo - b->hi; n->hi = a->hi - b->lo; } break;
    case Op::Mul: if (a->hi * b->hi <= m && (a->hi == 0 || a->hi * b->hi / a->hi == b->hi)) { n->lo = a->lo * b->lo; n->hi = a->hi * b->hi; } break;
    case Op::UDiv: if (b->lo) { n->lo = a->lo / b->hi; n->hi = a->hi / b->lo; } break;
    case Op::URem: if (b->lo) n->hi = std::min(a->hi, b->hi - 1); break;
    case Op::And: n->hi = std::min(a->hi, b->hi); break;
    case Op::Concat: n->lo = (a->lo << b->w) + b->lo; n->hi = (a->hi << b->w) + b->hi; break;
    case Op::Extract: if (a->w <= 64 && (n->aux + n->w == a->w || a->hi >> (n->aux + n->w) == 0)) { n->lo = a->lo >> n->aux; n->hi = a->hi >> n->aux; } break;
    default: break;
  }
}
static bool isFpOp(Op o) { return o >= Op::FAdd; }

static E intern(Op op, unsigned w, E a, E b, E c, u128 cv, uint32_t aux) {
  Expr t;
  t.op = op; t.w = w; t.aux = aux; t.c = cv;
  t.k[0] = a; t.k[1] = b; t.k[2] = c;
  t.nk = (a != nullptr) + (b != nullptr) + (c != nullptr);
  uint64_t h = mixh(((uint64_t)op << 16) | w, aux);
  h = mixh(h, (uint64_t)cv); h = mixh(h, (uint64_t)(cv >> 64));
  if (a) h = mixh(h, a->id + 1);
  if (b) h = mixh(h, b->id + 1);
  if (c) h = mixh(h, c->id + 1);
  t.hash = h;
  auto& T = table();
  auto it = T.find(&t);
  if (it != T.end()) return op != Op::Const && (*it)->lo == (*it)->hi ? mkConst((*it)->lo, w) : *it;
  Expr* n = new Expr(t);
  n->id = g_id++;
  n->vars = &g_empty;
  n->fp = isFpOp(op);
  for (int i = 0; i < 3; i++) if (n->k[i]) {
    n->vars = unite(n->vars, n->k[i]->vars);
    n->fp |= n->k[i]->fp;
    n->taint |= n->k[i]->taint;
  }
  bounds(n);
  T.insert(n);
  return op != Op::Const && n->lo == n->hi ? mkConst(n->lo, w) : n;
}

E mkConst(u128 v, unsigned w) { return intern(Op::Const, w, nullptr, nullptr, nullptr, v & maskW(w), 0); }
E mkVar(const std::string& name, unsigned w, bool uninit) {
  uint32_t idx = g_vars.size();
  Expr* n = new Expr();
  n->op = Op::Var; n->w = w; n->aux = idx; n->nk = 0; n->c = 0; n->k[0] = n->k[1] = n->k[2] = nullptr;
  n->hash = mixh(0x1234567 + idx, idx);
  n->id = g_id++;
  n->taint = uninit; n->hi = maskW(w);
  n->vars = new VarSet{idx};
  table().insert(n);
  g_vars.push_back({name, (uint16_t)w, uninit, n});
  return n;
}

// ---------------- concrete FP ----------------
static inline double asD(u128 a) { uint64_t x = (uint64_t)a; double d; memcpy(&d, &x, 8); return d; }
static inline float asF(u128 a) { uint32_t x = (uint32_t)a; float d; memcpy(&d, &x, 4); return d; }
static inline u128 frD(double d) { if (std::isnan(d)) return 0x7ff8000000000000ULL; uint64_t x; memcpy(&x, &d, 8); return x; }
static inline u128 frF(float d) { if (std::isnan(d)) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }

u128 fpBin(Op op, u128 a, u128 b, unsigned w) {
  if (w == 64) {
    volatile double x = asD(a), y = asD(b);
    switch (op) {
      case Op::FAdd: return frD(x + y);
      case Op::FSub: return frD(x - y);
      case Op::FMul: return frD(x * y);
      case Op::FDiv: return frD(x / y);
      case Op::FRem: return frD(fmod(x, y));
      case Op::FSqrt: return frD(sqrt(x));
      default: abort();
    }
  }
  volatile float x = asF(a), y = asF(b);
  switch (op) {
    case Op::FAdd: return frF(x + y);
    case Op::FSub: return frF(x - y);
    case Op::FMul: return frF(x * y);
    case Op::FDiv: return frF(x / y);
    case Op::FRem: return frF(fmodf(x, y));
    case Op::FSqrt: return frF(sqrtf(x));
    default: abort();
  }
}
bool fpCmp(Op op, u128 a, u128 b, unsigned w) {
  double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b);
  switch (op) {
    case Op::FEq: return x == y;
    case Op::FLt: return x < y;
    case Op::FLe: return x <= y;
    default: abort();
  }
}
u128 fpRnd(u128 a, unsigned w, unsigned rm) {
  double x = w == 64 ? asD(a) : (double)asF(a), r;
  switch (rm) {
    case 0: r = nearbyint(x); break;
    case 1: r = round(x); break;
    case 2: r = ceil(x); break;
    case 3: r = floor(x); break;
    default: r = trunc(x); break;
  }
  return w == 64 ? frD(r) : frF((float)r);
}
u128 fpConv(u128 a, unsigned from, unsigned to) {
  if (from == to) return a;
  if (from == 32) return frD((double)asF(a));
  return frF((float)asD(a));
}
u128 fpFromInt(u128 a, unsigned iw, bool sgn, unsigned fw) {
  if (sgn) { int64_t s = (int64_t)sextW(a, iw); return fw == 64 ? frD((double)s) : frF((float)s); }
  uint64_t u = (uint64_t)a; return fw == 64 ? frD((double)u) : frF((float)u);
}
// x86-64 semantics: out of range / NaN gives the "integer indefinite" value 100..0
u128 fpToInt(u128 a, unsigned fw, unsigned iw, bool sgn) {
  double x = fw == 64 ? asD(a) : (double)asF(a);
  u128 indef = (u128)1 << (iw - 1);
  if (std::isnan(x)) return indef;
  double t = trunc(x);
  if (sgn) {
    if (t >= ldexp(1.0, iw - 1) || t < -ldexp(1.0, iw - 1)) return indef;
    return (u128)(s128)(int64_t)t & maskW(iw);
  }
  if (t >= ldexp(1.0, iw) || t < 0) return indef;
  return (u128)(uint64_t)t & maskW(iw);
}

u128 binConst(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b == 0 ? m : (a / b) & m;
    case Op::URem: return b == 0 ? a : (a % b) & m;
    case Op::SDiv: {
      s128 x = sextW(a, w), y = sextW(b, w);
      if (y == 0) return (x < 0 ? (u128)1 : m) & m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case Op::SRem: {
      s128 x = sextW(a, w), y = sextW(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case Op::AShr: { s128 x = sextW(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextW(a, w) < sextW(b, w);
    case Op::Sle: return sextW(a, w) <= sextW(b, w);
    default: abort();
  }
}

static bool commut(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
static bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }
E mkNot(E a) { return mkBin(Op::Xor, a, mkConst(maskW(a->w), a->w)); }
static bool isNot(E a) { return a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->c == maskW(a->w); }

// number of low zero bits known
static unsigned lowZeros(E a) {
  switch (a->op) {
    case Op::Const: { if (a->c == 0) return a->w; unsigned n = 0; while (!((a->c >> n) & 1)) n++; return n; }
    case Op::Shl: if (a->k[1]->isConst()) return (unsigned)std::min<u128>(a->w, a->k[1]->c); return 0;
    case Op::Concat: { unsigned l = lowZeros(a->k[1]); if (l < a->k[1]->w) return l; return l + lowZeros(a->k[0]); }
    default: return 0;
  }
}
// number of high zero bits known
static unsigned highZeros(E a) {
  switch (a->op) {
    case Op::Const: { unsigned n = 0; while (n < a->w && !((a->c >> (a->w - 1 - n)) & 1)) n++; return n; }
    case Op::ZExt: return a->w - a->k[0]->w + highZeros(a->k[0]);
    case Op::Concat: { unsigned h = highZeros(a->k[0]); if (h < a->k[0]->w) return h; return h + highZeros(a->k[1]); }
    case Op::And: return std::max(highZeros(a->k[0]), highZeros(a->k[1]));
    case Op::Or: case Op::Xor: return std::min(highZeros(a->k[0]), highZeros(a->k[1]));
    case Op::Ite: { unsigned x = highZeros(a->k[1]); return x ? std::min(x, highZeros(a->k[2])) : 0; }
    case Op::URem: return a->k[1]->isConst() && a->k[1]->c ? highZeros(a->k[1]) : 0;
    case Op::UDiv: return a->k[1]->isConst() && a->k[1]->c ? highZeros(a->k[0]) : 0;
    default: return 0;
  }
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) abort();
  if (a->isConst()) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
      E h = a->k[0], l = a->k[1];
      if (lo >= l->w) return mkExtract(h, lo - l->w, w);
      if (lo + w <= l->w) return mkExtract(l, lo, w);
      return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
    }
    case Op::ZExt: {
      E s = a->k[0];
      if (lo >= s->w) return mkConst(0, w);
      if (lo + w <= s->w) return mkExtract(s, lo, w);
      return mkZExt(mkExtract(s, lo, s->w - lo), w);
    }
    case Op::SExt: {
      E s = a->k[0];
      if (lo + w <= s->w) return mkExtract(s, lo, w);
      if (lo < s->w) return mkSExt(mkExtract(s, lo, s->w - lo), w);
      break;
    }
    case Op::And: case Op::Or: case Op::Xor:
      if (a->k[1]->isConst() || a->k[0]->op == Op::Concat || a->k[0]->op == Op::ZExt)
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
      break;
    case Op::Ite:
      if (a->k[1]->isConst() || a->k[2]->isConst() )
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return intern(Op::Extract, w, a, nullptr, nullptr, 0, lo);
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (h->isConst() && l->isConst()) return mkConst((h->c << l->w) | l->c, w);
  if (h->isConst() && h->c == 0) return mkZExt(l, w);
  if (h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->aux == l->aux + l->w)
    return mkExtract(h->k[0], l->aux, w);
  // a low part that was simplified after having been extracted from the same value
  if (h->op == Op::Extract) {
    if (h->aux >= l->w && mkExtract(h->k[0], h->aux - l->w, l->w) == l) return mkExtract(h->k[0], h->aux - l->w, w);
    E m = l->op == Op::Concat ? l->k[0] : l;
    if (h->aux >= m->w && !m->isConst() && mkExtract(h->k[0], h->aux - m->w, m->w) == m) {
      E j = mkExtract(h->k[0], h->aux - m->w, h->w + m->w);
      return l->op == Op::Concat ? mkConcat(j, l->k[1]) : j;
    }
  }
  // right-assoc merge: concat(ext(x,b..c), concat(ext(x,a..b), rest))
  if (l->op == Op::Concat) {
    E m = l->k[0];
    if (h->op == Op::Extract && m->op == Op::Extract && h->k[0] == m->k[0] && h->aux == m->aux + m->w)
      return mkConcat(mkExtract(h->k[0], m->aux, h->w + m->w), l->k[1]);
    if (h->isConst() && m->isConst()) return mkConcat(mkConst((h->c << m->w) | m->c, h->w + m->w), l->k[1]);
  }
  if (h->op == Op::Concat) return mkConcat(h->k[0], mkConcat(h->k[1], l));
  // a value whose high bits are known, taken apart into bytes and put together again
  if (h->isConst() && w <= 64 && (l->op == Op::Add || l->op == Op::Mul) && l->k[1]->isConst()) {
    E x = nullptr;
    if (l->op == Op::Add) { u128 k = l->k[1]->c | (h->c << l->w); if (l->k[0]->hi + k <= maskW(w)) x = mkBin(Op::Add, mkZExt(l->k[0], w), mkConst(k, w)); }
    else if (l->k[0]->hi <= maskW(w) / l->k[1]->c) x = mkBin(Op::Mul, mkZExt(l->k[0], w), mkConst(l->k[1]->c, w));
    if (x && x->lo >> l->w == h->c && x->hi >> l->w == h->c && mkExtract(x, 0, l->w) == l) return x;
  }
  // ite lifting: concat(ite(c,k1,k2), ite(c,k3,k4)) with constants
  if (h->op == Op::Ite && l->op == Op::Ite && h->k[0] == l->k[0])
    return mkIte(h->k[0], mkConcat(h->k[1], l->k[1]), mkConcat(h->k[2], l->k[2]));
  if (h->op == Op::Ite && h->k[1]->isConst() && h->k[2]->isConst() && l->isConst())
    return mkIte(h->k[0], mkConcat(h->k[1], l), mkConcat(h->k[2], l));
  if (h->op == Op::ZExt) {
    E s = h->k[0];
    return mkZExt(mkConcat(s, l), w);
  }
  // sign bits: concat(extract parts of sext)
  return intern(Op::Concat, w, h, l, nullptr, 0, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) abort();
  if (a->isConst()) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  if (a->op == Op::Add && a->w > 8 && a->k[0]->op == Op::ZExt && a->k[1]->op == Op::ZExt && w <= 64 && a->k[0]->hi + a->k[1]->hi <= maskW(a->w)) return mkBin(Op::Add, mkZExt(a->k[0], w), mkZExt(a->k[1], w));
  if (a->op == Op::Add && a->w > 8 && a->k[1]->isConst() && a->k[0]->op == Op::ZExt && w <= 64 && a->k[0]->hi + a->k[1]->c <= maskW(a->w)) return mkBin(Op::Add, mkZExt(a->k[0], w), mkConst(a->k[1]->c, w));
  if (a->op == Op::Mul && a->w > 8 && a->k[1]->isConst() && a->k[1]->c && a->k[0]->op == Op::ZExt && w <= 64 && a->k[0]->hi <= maskW(a->w) / a->k[1]->c) return mkBin(Op::Mul, mkZExt(a->k[0], w), mkConst(a->k[1]->c, w));
  return intern(Op::ZExt, w, a, nullptr, nullptr, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) abort();
  if (a->isConst()) return mkConst((u128)sextW(a->c, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (highZeros(a) > 0) return mkZExt(a, w);
  if (a->op == Op::Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(Op::SExt, w, a, nullptr, nullptr, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return intern(Op::Ite, a->w, c, a, b, 0, 0);
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", (int)op, a->w, b->w); abort(); }
  unsigned rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(binConst(op, a->c, b->c, w), rw);
  if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  bool bc = b->isConst();
  u128 m = maskW(w);
  if (isCmp(op) && w > 1 && w <= 64) {
    bool pos = a->hi < ((u128)1 << (w - 1)) && b->hi < ((u128)1 << (w - 1));
    if (op == Op::Ult || (op == Op::Slt && pos)) { if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse(); }
    if (op == Op::Ule || (op == Op::Sle && pos)) { if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse(); }
    if (op == Op::Eq && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
    if (pos && op == Op::Slt) op = Op::Ult;
    if (pos && op == Op::Sle) op = Op::Ule;
    // products with a constant that cannot wrap compare as their factors do
    auto fac = [&](E x) -> u128 { return x->op == Op::Mul && x->k[1]->isConst() && x->k[1]->c && x->k[0]->hi <= m / x->k[1]->c ? x->k[1]->c : 0; };
    if (op == Op::Ult || op == Op::Ule || op == Op::Eq) {
      u128 fa = fac(a), fb = fac(b);
      if (fa && fa == fb) return mkBin(op, a->k[0], b->k[0]);
      // so do sums with the same constant
      if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1] && a->k[1]->isConst() && a->k[0]->hi + a->k[1]->c <= m && b->k[0]->hi + b->k[1]->c <= m) return mkBin(op, a->k[0], b->k[0]);
      if (fa && bc && op == Op::Eq) return b->c % fa ? mkFalse() : mkEq(a->k[0], mkConst(b->c / fa, w));
      if (fa && bc) return op == Op::Ult ? mkBin(op, a->k[0], mkConst((b->c + fa - 1) / fa, w)) : mkBin(op, a->k[0], mkConst(b->c / fa, w));
      if (fb && a->isConst()) return op == Op::Ult ? mkBin(op, mkConst(a->c / fb, w), b->k[0]) : mkBin(op, mkConst((a->c + fb - 1) / fb, w), b->k[0]);
    }
  }
  if (w <= 64 && bc && b->c && a->op == Op::Mul && a->k[1]->isConst() && a->k[1]->c && a->k[0]->hi <= m / a->k[1]->c) {
    u128 k = a->k[1]->c; bool sg = op == Op::SDiv || op == Op::SRem;
    if (!sg || (a->hi < ((u128)1 << (w - 1)) && b->c < ((u128)1 << (w - 1)))) {
      if ((op == Op::UDiv || op == Op::SDiv) && k % b->c == 0) return mkBin(Op::Mul, a->k[0], mkConst(k / b->c, w));
      if ((op == Op::URem || op == Op::SRem) && k % b->c == 0) return mkConst(0, w);
    }
  }
  switch (op) {
    case Op::Add:
      if (bc && b->c == 0) return a;
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (bc && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (bc && a->op == Op::Sub && a->k[0]->isConst()) return mkBin(Op::Sub, mkConst(a->k[0]->c + b->c, w), a->k[1]);
      if (!bc && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
      if (!bc && b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
      if (!bc && b->op == Op::Sub && b->k[1] == a) return b->k[0];
      if (!bc && a->op == Op::Sub && a->k[1] == b) return a->k[0];
      if (bc && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(Op::Add, a, mkConst(-b->c, w));
      if (a->op == Op::Add && a->k[0] == b) return a->k[1];
      if (a->op == Op::Add && a->k[1] == b) return a->k[0];
      if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(-b->k[1]->c, w));
      if (b->op == Op::Add && b->k[0] == a) return mkBin(Op::Sub, mkConst(0, w), b->k[1]);
      if (a->isConst() && b->op == Op::Sub && b->k[0]->isConst()) return mkBin(Op::Add, b->k[1], mkConst(a->c - b->k[0]->c, w));
      if (w > 8 && a->op == Op::Mul && b->op == Op::Mul && a->k[1] == b->k[1] && a->k[1]->isConst()) return mkBin(Op::Mul, mkBin(Op::Sub, a->k[0], b->k[0]), a->k[1]);
      break;
    case Op::Mul:
      if (bc && b->c && w > 8 && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
      if (bc) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return mkBin(Op::Shl, a, mkConst(n, w)); }
      }
      break;
    case Op::UDiv:
      if (bc && b->c == 1) return a;
      if (bc && b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return mkBin(Op::LShr, a, mkConst(n, w)); }
      break;
    case Op::URem:
      if (bc && b->c == 1) return mkConst(0, w);
      if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::And, a, mkConst(b->c - 1, w));
      break;
    case Op::SDiv: if (bc && b->c == 1) return a; break;
    case Op::Shl:
      if (bc) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
      }
      if (a->isConst() && a->c == 0) return a;
      break;
    case Op::LShr:
      if (bc) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkZExt(mkExtract(a, n, w - n), w);
      }
      if (a->isConst() && a->c == 0) return a;
      break;
    case Op::AShr:
      if (bc) {
        if (b->c == 0) return a;
        unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    case Op::And:
      if (a == b) return a;
      if (bc) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == Op::And && a->k[1]->isConst()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
        // low mask
        u128 x = b->c;
        if ((x & (x + 1)) == 0) { unsigned n = 0; while (n < w && ((x >> n) & 1)) n++; return mkZExt(mkExtract(a, 0, n), w); }
        // contiguous run mask
        unsigned lo = 0; while (!((x >> lo) & 1)) lo++;
        u128 y = x >> lo;
        if ((y & (y + 1)) == 0) {
          unsigned n = 0; while (((y >> n) & 1) && n < w) n++;
          E mid = mkConcat(mkExtract(a, lo, n), mkConst(0, lo));
          return mkZExt(mid, w);
        }
      }
      if (w == 1) {
        if (isNot(a) && a->k[0] == b) return mkFalse();
        if (isNot(b) && b->k[0] == a) return mkFalse();
        if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
        if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
      }
      break;
    case Op::Or:
      if (a == b) return a;
      if (bc) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
        if (a->op == Op::Or && a->k[1]->isConst()) return mkBin(Op::Or, a->k[0], mkConst(a->k[1]->c | b->c, w));
      }
      if (w == 1) {
        if (isNot(a) && a->k[0] == b) return mkTrue();
        if (isNot(b) && b->k[0] == a) return mkTrue();
      } else {
        // disjoint bits: or(concat(x,0_n), zext(y)) -> concat(x, zext y)
        for (int t = 0; t < 2; t++) {
          unsigned lz = lowZeros(a), hz = highZeros(b);
          if (lz && lz < w && hz >= w - lz) return mkConcat(mkExtract(a, lz, w - lz), mkExtract(b, 0, lz));
          std::swap(a, b);
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (bc && b->c == 0) return a;
      if (bc && a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (bc && a->op == Op::Ite && w == 1) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
      if (w == 1 && bc) {
        if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
        if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
        if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
        if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
      }
      break;
    case Op::Eq:
      if (a == b) return mkTrue();
      if (w == 1) {
        if (bc) return b->c ? a : mkNot(a);
        return mkNot(mkBin(Op::Xor, a, b));
      }
      if (bc) {
        switch (a->op) {
          case Op::ZExt:
            if (b->c >> a->k[0]->w) return mkFalse();
            return mkEq(a->k[0], mkConst(b->c, a->k[0]->w));
          case Op::SExt: {
            E s = a->k[0];
            u128 t = b->c & maskW(s->w);
            if (((u128)sextW(t, s->w) & m) != b->c) return mkFalse();
            return mkEq(s, mkConst(t, s->w));
          }
          case Op::Concat: {
            E h = a->k[0], l = a->k[1];
            if (h->isConst()) { if ((b->c >> l->w) != h->c) return mkFalse(); return mkEq(l, mkConst(b->c, l->w)); }
            if (l->isConst()) { if ((b->c & maskW(l->w)) != l->c) return mkFalse(); return mkEq(h, mkConst(b->c >> l->w, h->w)); }
            return mkAnd(mkEq(h, mkConst(b->c >> l->w, h->w)), mkEq(l, mkConst(b->c, l->w)));
          }
          case Op::Add: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w)); break;
          case Op::Sub: if (a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, w));
            if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
          case Op::Xor: if (a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w)); break;
          case Op::Ite:
            if (a->k[1]->isConst() || a->k[2]->isConst())
              return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
            break;
          default: break;
        }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
        if (a->op == Op::Add && a->k[0] == b && a->k[1]->isConst()) return mkFalse();
        if (b->op == Op::Add && b->k[0] == a && b->k[1]->isConst()) return mkFalse();
        if (a->op == Op::Concat && b->op == Op::Concat && a->k[0]->w == b->k[0]->w)
          return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
      }
      break;
    case Op::Ult:
      if (a == b) return mkFalse();
      if (w == 1) return mkAnd(mkNot(a), b);
      if (bc && b->c == 0) return mkFalse();
      if (bc && b->c == 1) return mkEq(a, mkConst(0, w));
      if (a->isConst() && a->c == m) return mkFalse();
      if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
      if (bc && highZeros(a) && (b->c >> (w - highZeros(a)))) return mkTrue();
      if (a->isConst() && highZeros(b) && (a->c >> (w - highZeros(b)))) return mkFalse();
      if (bc && a->op == Op::ZExt) return mkBin(op, a->k[0], mkConst(b->c, a->k[0]->w));
      if (a->isConst() && b->op == Op::ZExt) return mkBin(op, mkConst(a->c, b->k[0]->w), b->k[0]);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      if (bc && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (a->isConst() && b->op == Op::Ite && b->k[1]->isConst() && b->k[2]->isConst()) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
    case Op::Ule:
      if (a == b) return mkTrue();
      if (w == 1) return mkOr(mkNot(a), b);
      if (a->isConst() && a->c == 0) return mkTrue();
      if (bc && b->c == m) return mkTrue();
      if (bc) return mkBin(Op::Ult, a, mkConst(b->c + 1, w));
      if (a->isConst()) return mkBin(Op::Ult, mkConst(a->c - 1, w), b);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      break;
    case Op::Slt: case Op::Sle:
      if (a == b) return op == Op::Sle ? mkTrue() : mkFalse();
      if (w == 1) break;
      if (highZeros(a) && highZeros(b)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (bc && a->op == Op::SExt && sextW(b->c & maskW(a->k[0]->w), a->k[0]->w) == sextW(b->c, w))
        return mkBin(op, a->k[0], mkConst(b->c, a->k[0]->w));
      if (a->isConst() && b->op == Op::SExt && sextW(a->c & maskW(b->k[0]->w), b->k[0]->w) == sextW(a->c, w))
        return mkBin(op, mkConst(a->c, b->k[0]->w), b->k[0]);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
      if (bc && highZeros(a) && sextW(b->c, w) < 0) return mkFalse();
      if (a->isConst() && highZeros(b) && sextW(a->c, w) < 0) return mkTrue();
      if (bc && a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      break;
    default: break;
  }
  return intern(op, rw, a, b, nullptr, 0, 0);
}

E mkF(Op op, E a, E b, unsigned w, unsigned aux) {
  bool ac = a->isConst(), bc = !b || b->isConst();
  if (ac && bc) {
    switch (op) {
      case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: return mkConst(fpBin(op, a->c, b->c, w), w);
      case Op::FSqrt: return mkConst(fpBin(op, a->c, a->c, w), w);
      case Op::FRnd: return mkConst(fpRnd(a->c, w, aux), w);
      case Op::FEq: case Op::FLt: case Op::FLe: return mkConst(fpCmp(op, a->c, b->c, a->w), 1);
      case Op::FConv: return mkConst(fpConv(a->c, a->w, w), w);
      case Op::SIToF: return mkConst(fpFromInt(a->c, a->w, true, w), w);
      case Op::UIToF: return mkConst(fpFromInt(a->c, a->w, false, w), w);
      case Op::FToSI: return mkConst(fpToInt(a->c, a->w, w, true), w);
      case Op::FToUI: return mkConst(fpToInt(a->c, a->w, w, false), w);
      default: abort();
    }
  }
  if (op == Op::FEq || op == Op::FLt || op == Op::FLe) {   // adding zero does not show in a comparison
    auto strip = [](E e) { while (e->op == Op::FAdd) { if (e->k[0]->isConst() && !(e->k[0]->c << 1 & maskW(e->w))) e = e->k[1]; else if (e->k[1]->isConst() && !(e->k[1]->c << 1 & maskW(e->w))) e = e->k[0]; else break; } return e; };
    E x = strip(a), y = strip(b); if (x != a || y != b) return mkF(op, x, y, w, aux);
  }
  if ((op == Op::FAdd || op == Op::FMul || op == Op::FEq) && a->id > b->id) std::swap(a, b);
  if (op == Op::FEq && a->w == 64) {
    // x == integer-valued conversions: SIToF(a)==SIToF(a) is never NaN
    if (a == b && (a->op == Op::SIToF || a->op == Op::UIToF)) return mkTrue();
  }
  if (op == Op::FConv && a->w == w) return a;
  if (w == 64 && (op == Op::FAdd || op == Op::FSub || op == Op::FMul || op == Op::FDiv)) {
    // identities that hold bit for bit, for operands whose NaNs are already canonical
    auto canon = [](E e) { return e->op == Op::FAdd || e->op == Op::FSub || e->op == Op::FMul || e->op == Op::FDiv || e->op == Op::SIToF || e->op == Op::UIToF || e->op == Op::FSqrt; };
    const u128 NZ = 0x8000000000000000ull, ONE = 0x3ff0000000000000ull;
    if (op == Op::FAdd && b->isConst() && b->c == NZ && canon(a)) return a;
    if (op == Op::FAdd && a->isConst() && a->c == NZ && canon(b)) return b;
    if (op == Op::FSub && b->isConst() && b->c == 0 && canon(a)) return a;
    if ((op == Op::FMul || op == Op::FDiv) && b->isConst() && b->c == ONE && canon(a)) return a;
    if (op == Op::FMul && a->isConst() && a->c == ONE && canon(b)) return b;
  }
  // comparison against ite of constants
  return intern(op, w, a, b, nullptr, 0, aux);
}

u128 evalExpr(E e, const Model& m) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var) return m.get(e->aux) & maskW(e->w);
  if (e->evStamp == m.stamp) return e->ev;
  u128 r;
  E a = e->k[0], b = e->k[1];
  switch (e->op) {
    case Op::Ite: r = evalExpr(a, m) ? evalExpr(b, m) : evalExpr(e->k[2], m); break;
    case Op::ZExt: r = evalExpr(a, m); break;
    case Op::SExt: r = (u128)sextW(evalExpr(a, m), a->w) & maskW(e->w); break;
    case Op::Extract: r = (evalExpr(a, m) >> e->aux) & maskW(e->w); break;
    case Op::Concat: r = (evalExpr(a, m) << b->w) | evalExpr(b, m); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: r = fpBin(e->op, evalExpr(a, m), evalExpr(b, m), e->w); break;
    case Op::FSqrt: { u128 x = evalExpr(a, m); r = fpBin(e->op, x, x, e->w); break; }
    case Op::FRnd: r = fpRnd(evalExpr(a, m), e->w, e->aux); break;
    case Op::FEq: case Op::FLt: case Op::FLe: r = fpCmp(e->op, evalExpr(a, m), evalExpr(b, m), a->w); break;
    case Op::FConv: r = fpConv(evalExpr(a, m), a->w, e->w); break;
    case Op::SIToF: r = fpFromInt(evalExpr(a, m), a->w, true, e->w); break;
    case Op::UIToF: r = fpFromInt(evalExpr(a, m), a->w, false, e->w); break;
    case Op::FToSI: r = fpToInt(evalExpr(a, m), a->w, e->w, true); break;
    case Op::FToUI: r = fpToInt(evalExpr(a, m), a->w, e->w, false); break;
    default: r = binConst(e->op, evalExpr(a, m), evalExpr(b, m), a->w); break;
  }
  e->evStamp = m.stamp;
  e->ev = r;
  return r;
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","feq","flt","fle","fconv","sitof","uitof","ftosi","ftoui"};
std::string exprStr(E e, int d) {
  char buf[80];
  if (e->op == Op::Const) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == Op::Var) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[(int)e->op];
  if (e->op == Op::Extract || e->op == Op::FRnd) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->w); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
