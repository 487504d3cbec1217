#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <time.h>
#include <unistd.h>

std::vector<VarInfo> g_vars;
uint64_t g_numExprs = 0;
uint32_t g_evalEpoch = 1;

// ---------- arena and hash-consing ----------
static Expr *allocExpr() {
  static Expr *chunk = nullptr; static size_t left = 0;
  if (!left) { left = 4096; chunk = (Expr *)aligned_alloc(64, left * ((sizeof(Expr) + 63) / 64 * 64)); }
  --left;
  return chunk++;
}
static std::vector<Expr *> table(1 << 16);
static size_t tcount = 0;
static inline uint32_t hmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return (uint32_t)h; }
static uint32_t hashNode(Kind k, unsigned w, uint64_t c, Expr *a, Expr *b, Expr *d) {
  uint64_t h = (uint64_t)k * 0x9E3779B97F4A7C15ull + w * 1315423911u;
  h = h * 31 + c; h ^= hmix(h);
  h = h * 0x100000001b3ull + (a ? a->id + 1 : 0);
  h = h * 0x100000001b3ull + (b ? b->id + 1 : 0);
  h = h * 0x100000001b3ull + (d ? d->id + 1 : 0);
  return hmix(h);
}
static void grow() {
  std::vector<Expr *> n(table.size() * 2);
  size_t m = n.size() - 1;
  for (Expr *e : table) if (e) { size_t i = e->hash & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
  table.swap(n);
}
// variable sets
struct VSHash { size_t operator()(const VarSet *s) const { uint64_t h = 7; for (auto x : s->v) h = h * 1000003 + x; return hmix(h); } };
struct VSEq { bool operator()(const VarSet *a, const VarSet *b) const { return a->v == b->v; } };
static std::unordered_set<const VarSet *, VSHash, VSEq> vsIntern;
static const VarSet *emptyVS() { static VarSet e; return &e; }
static const VarSet *internVS(VarSet &&s) {
  if (s.v.empty()) return emptyVS();
  auto it = vsIntern.find(&s); if (it != vsIntern.end()) return *it;
  auto *n = new VarSet(std::move(s)); n->id = vsIntern.size() + 1; vsIntern.insert(n); return n;
}
static std::unordered_map<uint64_t, const VarSet *> vsUnionCache;
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  uint64_t key = (uint64_t)a->id << 32 | b->id;
  auto it = vsUnionCache.find(key);
  if (it != vsUnionCache.end()) return it->second;
  VarSet s; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(s.v));
  auto *r = internVS(std::move(s));
  vsUnionCache[key] = r;
  return r;
}

static void computeRange(Expr *e) {
  uint64_t M = maskw(e->w);
  e->lo = 0; e->hi = M;
  if (e->w > 64) { e->lo = 0; e->hi = ~0ull; return; }
  Expr *a = e->o[0], *b = e->o[1];
  switch (e->k) {
  case K_CONST: e->lo = e->hi = e->c; break;
  case K_VAR: e->lo = g_vars[e->c].lo; e->hi = g_vars[e->c].hi; break;
  case K_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
  case K_SEXT: if (a->w <= 64 && a->hi <= (maskw(a->w) >> 1)) { e->lo = a->lo; e->hi = a->hi; } break;
  case K_EXTRACT:
    if (a->w <= 64) {
      if (e->c == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
      else if (e->c > 0 && (a->hi >> e->c) <= M) { e->lo = a->lo >> e->c; e->hi = a->hi >> e->c; }
    }
    break;
  case K_ADD: {
    if (b->k == K_CONST && b->c > (M >> 1)) { // x - k
      uint64_t k = (M - b->c) + 1;
      if (a->lo >= k) { e->lo = a->lo - k; e->hi = a->hi - k; }
    } else {
      uint64_t h = a->hi + b->hi;
      if (h >= a->hi && h <= M) { e->lo = a->lo + b->lo; e->hi = h; }
    }
    break; }
  case K_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
  case K_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= M) { e->lo = a->lo * b->lo; e->hi = (uint64_t)h; } break; }
  case K_SHL: if (b->k == K_CONST && b->c < e->w) { unsigned __int128 h = (unsigned __int128)a->hi << b->c; if (h <= M) { e->lo = a->lo << b->c; e->hi = (uint64_t)h; } } break;
  case K_LSHR: if (b->k == K_CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else e->hi = a->hi; break;
  case K_ASHR: if (a->hi <= (M >> 1)) { e->hi = a->hi; if (b->k == K_CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } } break;
  case K_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case K_UREM: if (b->lo > 0) e->hi = std::min(a->hi, b->hi - 1); break;
  case K_AND: e->hi = std::min(a->hi, b->hi); break;
  case K_OR: case K_XOR: { uint64_t h = a->hi | b->hi; unsigned n = h ? 64 - __builtin_clzll(h) : 0; e->hi = maskw(n ? n : 0); if (n == 0) e->hi = 0; if (e->k == K_OR) e->lo = std::max(a->lo, b->lo); break; }
  case K_ITE: e->lo = std::min(b->lo, e->o[2]->lo); e->hi = std::max(b->hi, e->o[2]->hi); break;
  case K_CONCAT: if (a->w + b->w <= 64) { e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi;
      if (a->lo != a->hi) { e->lo = a->lo << b->w; e->hi = (a->hi << b->w) | maskw(b->w); } } break;
  default: break;
  }
}

static uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m);
static void bumpEpoch();
static Expr *canonical(Expr *e);
static bool noCanon = false;
static void tightRange(Expr *e);
static bool smallDomain(const Expr *e) { if (e->vs->v.size() != 1) return false; const VarInfo &v = g_vars[e->vs->v[0]]; return v.hi - v.lo < 256; }
static Expr *mk(Kind k, unsigned w, uint64_t c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
  uint32_t h = hashNode(k, w, c, a, b, d);
  size_t m = table.size() - 1, i = h & m;
  while (Expr *e = table[i]) {
    if (e->hash == h && e->k == k && e->w == w && e->c == c && e->o[0] == a && e->o[1] == b && e->o[2] == d) {
      if (k != K_CONST && k != K_VAR && w <= 64 && e->lo == e->hi) return mkConst(e->lo, w);
      return e->canon && !noCanon ? e->canon : e; }
    i = (i + 1) & m;
  }
  Expr *e = allocExpr();
  e->k = k; e->dead = 0; e->w = w; e->id = (uint32_t)g_numExprs++; e->c = c; e->o[0] = a; e->o[1] = b; e->o[2] = d;
  e->z = e->zb = nullptr; e->canon = nullptr; e->ep = 0; e->ev = 0; e->hash = h;
  const VarSet *vs = emptyVS();
  if (k == K_VAR) { VarSet s; s.v.push_back((uint32_t)c); vs = internVS(std::move(s)); }
  else { if (a) vs = a->vs; if (b) vs = unionVS(vs, b->vs); if (d) vs = unionVS(vs, d->vs); }
  e->vs = vs;
  computeRange(e);
  table[i] = e;
  if (++tcount * 2 > table.size()) grow();
  // a range that collapsed to one value is a constant
  if (k != K_CONST && k != K_VAR && w <= 64 && e->lo == e->hi) return mkConst(e->lo, w);
  if (k > K_VAR && !noCanon && smallDomain(e)) {
    if (w == 1) return e->canon = canonical(e);
    if (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM || k == K_SUB || k == K_ITE) {
      tightRange(e); if (e->lo == e->hi) return mkConst(e->lo, w);
    }
  }
  return e;
}
// An expression over a single variable with a small domain: its exact range, and for predicates an equivalent
// combination of interval tests on the variable.
static std::vector<uint64_t> tabModel;
static void tightRange(Expr *e) {
  if (e->w > 64) return;
  uint32_t v = e->vs->v[0]; uint64_t lo = g_vars[v].lo, hi = g_vars[v].hi, mn = ~0ull, mx = 0;
  if (tabModel.size() <= v) tabModel.resize(v + 64, 0);
  for (uint64_t x = lo; x <= hi; x++) { tabModel[v] = x; bumpEpoch(); uint64_t r = evalRec(e, tabModel); mn = std::min(mn, r); mx = std::max(mx, r); }
  e->lo = mn; e->hi = mx;
}
static Expr *canonical(Expr *e) {
  uint32_t v = e->vs->v[0]; VarInfo vi = g_vars[v]; uint64_t lo = vi.lo, hi = vi.hi;
  if (tabModel.size() <= v) tabModel.resize(v + 64, 0);
  std::vector<std::pair<uint64_t, uint64_t>> in, out;
  for (uint64_t x = lo; x <= hi; x++) {
    tabModel[v] = x; bumpEpoch(); bool r = evalRec(e, tabModel) & 1;
    auto &l = r ? in : out; 
    if (!l.empty() && l.back().second + 1 == x) l.back().second = x; else l.push_back({x, x});
  }
  if (in.empty()) return mkConst(0, 1);
  if (out.empty()) return mkConst(1, 1);
  bool neg = out.size() < in.size(); auto &l = neg ? out : in;
  if (l.size() > 6) return e;
  noCanon = true;
  Expr *r = nullptr;
  for (auto &p : l) {
    Expr *x;
    if (p.first == p.second) x = mk(K_EQ, 1, 0, vi.e, mkConst(p.first, vi.w));
    else if (p.first == lo) x = mk(K_ULE, 1, 0, vi.e, mkConst(p.second, vi.w));
    else if (p.second == hi) x = mk(K_ULE, 1, 0, mkConst(p.first, vi.w), vi.e);
    else x = mk(K_AND, 1, 0, mk(K_ULE, 1, 0, mkConst(p.first, vi.w), vi.e), mk(K_ULE, 1, 0, vi.e, mkConst(p.second, vi.w)));
    x->canon = x;
    if (!r) r = x; else { r = mk(K_OR, 1, 0, r, x); r->canon = r; }
  }
  if (neg) { r = mk(K_NOT, 1, 0, r); r->canon = r; }
  noCanon = false;
  return r;
}

Expr *mkConst(uint64_t v, unsigned w) {
  if (w > 64) { // wide constants: concat of pieces
    Expr *lo = mkConst(v, 64);
    return mk(K_CONCAT, w, 0, mkConst(0, w - 64), lo);
  }
  return mk(K_CONST, w, v & maskw(w));
}

static std::map<std::string, Expr *> varReg;
Expr *mkVar(const std::string &key, const std::string &name, unsigned w, uint64_t lo, uint64_t hi) {
  std::string kk = key + "|" + name + "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  auto it = varReg.find(kk);
  if (it != varReg.end()) return it->second;
  uint32_t id = g_vars.size();
  g_vars.push_back({name, w, lo, hi, nullptr});
  Expr *e = mk(K_VAR, w, id);
  g_vars[id].e = e; varReg[kk] = e;
  return e;
}

static uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & M;
  case K_SUB: return (a - b) & M;
  case K_MUL: return (a * b) & M;
  case K_UDIV: return b ? a / b : M;
  case K_UREM: return b ? a % b : a;
  case K_SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (uint64_t)(x / y) & M; }
  case K_SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & M;
  case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: { int64_t x = sext64(a, w); return (uint64_t)(x >> (b >= w ? (w - 1) : b)) & M; }
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_ULE: return a <= b;
  case K_SLT: return sext64(a, w) < sext64(b, w);
  case K_SLE: return sext64(a, w) <= sext64(b, w);
  default: abort();
  }
}

static inline bool isC(Expr *e, uint64_t v) { return e->k == K_CONST && e->c == v; }
static inline Expr *mkBool(bool b) { return mkConst(b, 1); }
static inline bool constArms(Expr *e) { return e->k == K_ITE && e->o[1]->k == K_CONST && e->o[2]->k == K_CONST; }

static Expr *fpBitsEq(Expr *a, Expr *b);
static Expr *mkFp(Kind k, Expr *n, Expr *d, int sc);
Expr *mkNot(Expr *a) {
  if (a->k == K_CONST) return mkConst(~a->c, a->w);
  if (a->k == K_NOT) return a->o[0];
  if (a->w == 1) {
    if (a->k == K_ULT) return mkBin(K_ULE, a->o[1], a->o[0]);
    if (a->k == K_ULE) return mkBin(K_ULT, a->o[1], a->o[0]);
    if (a->k == K_SLT) return mkBin(K_SLE, a->o[1], a->o[0]);
    if (a->k == K_SLE) return mkBin(K_SLT, a->o[1], a->o[0]);
    if (constArms(a)) return mkIte(a->o[0], mkNot(a->o[1]), mkNot(a->o[2]));
  }
  return mk(K_NOT, a->w, 0, a);
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (k == K_EQ && w == 64 && (a->k >= K_FDY || b->k >= K_FDY)) if (Expr *r = fpBitsEq(a, b)) return r;
  bool cmp = k >= K_EQ;
  if (w <= 64 && a->k == K_CONST && b->k == K_CONST) return mkConst(foldBin(k, a->c, b->c, w), cmp ? 1 : w);
  if (w > 64) {
    if (k == K_EQ && a == b) return mkBool(true);
    if (k == K_OR) { // (zext x) | (shl y 64)  patterns produced for i128: leave to z3
    }
    return mk(k, cmp ? 1 : w, 0, a, b);
  }
  uint64_t M = maskw(w);
  // commutative: constant to the right
  switch (k) { case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR: case K_EQ:
    if (a->k == K_CONST || (b->k != K_CONST && a->id > b->id)) std::swap(a, b); break; default: break; }
  // push into ite with constant arms when the other operand is a constant
  if (b->k == K_CONST && constArms(a)) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b));
  if (a->k == K_CONST && constArms(b)) return mkIte(b->o[0], mkBin(k, a, b->o[1]), mkBin(k, a, b->o[2]));
  switch (k) {
  case K_ADD:
    if (w == 1) return mkBin(K_XOR, a, b);
    if (isC(b, 0)) return a;
    if (b->k == K_CONST) {
      if (a->k == K_ADD && a->o[1]->k == K_CONST) return mkBin(K_ADD, a->o[0], mkConst(a->o[1]->c + b->c, w));
      if (a->k == K_SUB && a->o[0]->k == K_CONST) return mkBin(K_SUB, mkConst(a->o[0]->c + b->c, w), a->o[1]);
    } else {
      if (a->k == K_ADD && a->o[1]->k == K_CONST) return mkBin(K_ADD, mkBin(K_ADD, a->o[0], b), a->o[1]);
      if (b->k == K_ADD && b->o[1]->k == K_CONST) return mkBin(K_ADD, mkBin(K_ADD, a, b->o[0]), b->o[1]);
      if (b->k == K_SUB && b->o[1] == a) return b->o[0];
      if (a->k == K_SUB && a->o[1] == b) return a->o[0];
    }
    break;
  case K_SUB:
    if (w == 1) return mkBin(K_XOR, a, b);
    if (a == b) return mkConst(0, w);
    if (b->k == K_CONST) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
    if (a->k == K_ADD) {
      if (a->o[0] == b) return a->o[1];
      if (a->o[1] == b) return a->o[0];
      if (a->o[1]->k == K_CONST) {
        if (b->k == K_ADD && b->o[1]->k == K_CONST) return mkBin(K_ADD, mkBin(K_SUB, a->o[0], b->o[0]), mkConst(a->o[1]->c - b->o[1]->c, w));
        return mkBin(K_ADD, mkBin(K_SUB, a->o[0], b), a->o[1]);
      }
    }
    if (b->k == K_ADD) {
      if (b->o[1]->k == K_CONST && a->k != K_CONST) return mkBin(K_ADD, mkBin(K_SUB, a, b->o[0]), mkConst(0 - b->o[1]->c, w));
      if (b->o[1]->k == K_CONST && a->k == K_CONST) return mkBin(K_SUB, mkConst(a->c - b->o[1]->c, w), b->o[0]);
      if (b->o[0] == a) return mkBin(K_SUB, mkConst(0, w), b->o[1]);
      if (b->o[1] == a) return mkBin(K_SUB, mkConst(0, w), b->o[0]);
    }
    break;
  case K_MUL:
    if (w == 1) return mkBin(K_AND, a, b);
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (b->k == K_CONST && (b->c & (b->c - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->c), w));
    if (b->k == K_CONST && a->k == K_MUL && a->o[1]->k == K_CONST) return mkBin(K_MUL, a->o[0], mkConst(a->o[1]->c * b->c, w));
    break;
  case K_UDIV:
    if (isC(b, 1)) return a;
    if (b->k == K_CONST && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->c), w));
    if (b->lo > a->hi) return mkConst(0, w);
    // (x * c) / c without overflow
    if (b->k == K_CONST && a->k == K_MUL && a->o[1] == b) { unsigned __int128 h = (unsigned __int128)a->o[0]->hi * b->c; if (h <= M) return a->o[0]; }
    break;
  case K_UREM:
    if (isC(b, 1)) return mkConst(0, w);
    if (b->k == K_CONST && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkConst(b->c - 1, w));
    if (b->lo > a->hi) return a;
    break;
  case K_SDIV:
    if (isC(b, 1)) return a;
    if (a->hi <= (M >> 1) && b->hi <= (M >> 1)) return mkBin(K_UDIV, a, b);
    break;
  case K_SREM:
    if (a->hi <= (M >> 1) && b->hi <= (M >> 1)) return mkBin(K_UREM, a, b);
    break;
  case K_AND:
    if (a == b) return a;
    if (b->k == K_CONST) {
      if (b->c == 0) return b;
      if (b->c == M) return a;
      if ((b->c & (b->c + 1)) == 0) { // low mask
        if (a->hi <= b->c) return a;
        unsigned n = __builtin_ctzll(b->c + 1);
        return mkZExt(mkExtract(a, 0, n), w);
      }
      if (a->k == K_AND && a->o[1]->k == K_CONST) return mkBin(K_AND, a->o[0], mkConst(a->o[1]->c & b->c, w));
      if (a->k == K_ZEXT) return mkZExt(mkBin(K_AND, a->o[0], mkConst(b->c, a->o[0]->w)), w);
    }
    if (w == 1 && (a == mkNot(b))) return mkBool(false);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->o[0]->w == b->o[0]->w) return mkZExt(mkBin(K_AND, a->o[0], b->o[0]), w);
    break;
  case K_OR:
    if (a == b) return a;
    if (b->k == K_CONST) { if (b->c == 0) return a; if (b->c == M) return b; }
    if (w == 1 && (a == mkNot(b))) return mkBool(true);
    { // disjoint: zext(x) | shl(zext(y), k) with x.w <= k
      Expr *s = a, *z = b; if (s->k != K_SHL) std::swap(s, z);
      if (s->k == K_SHL && s->o[1]->k == K_CONST && s->o[1]->c < w) {
        unsigned sh = s->o[1]->c;
        if (sh > 0 && z->hi <= maskw(sh)) return mkConcat(mkExtract(s->o[0], 0, w - sh), mkExtract(z, 0, sh));
      }
      Expr *cc = a; Expr *zz = b; if (cc->k != K_CONCAT) std::swap(cc, zz);
      // concat(h, 0) | z   with z small
      if (cc->k == K_CONCAT && cc->o[1]->k == K_CONST && cc->o[1]->c == 0 && zz->hi <= maskw(cc->o[1]->w)) return mkConcat(cc->o[0], mkExtract(zz, 0, cc->o[1]->w));
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->o[0]->w == b->o[0]->w) return mkZExt(mkBin(K_OR, a->o[0], b->o[0]), w);
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b, 0)) return a;
    if (b->k == K_CONST && b->c == M) return mkNot(a);
    if (w == 1) { if (a->k == K_NOT) return mkNot(mkBin(K_XOR, a->o[0], b)); if (b->k == K_NOT) return mkNot(mkBin(K_XOR, a, b->o[0])); }
    if (b->k == K_CONST && a->k == K_XOR && a->o[1]->k == K_CONST) return mkBin(K_XOR, a->o[0], mkConst(a->o[1]->c ^ b->c, w));
    break;
  case K_SHL:
    if (isC(b, 0)) return a;
    if (b->k == K_CONST && b->c >= w) return mkConst(0, w);
    if (b->k == K_CONST && a->k == K_SHL && a->o[1]->k == K_CONST) return mkBin(K_SHL, a->o[0], mkConst(std::min<uint64_t>(a->o[1]->c + b->c, w), w));
    break;
  case K_LSHR: case K_ASHR:
    if (isC(b, 0)) return a;
    if (k == K_ASHR && a->hi <= (M >> 1)) return mkBin(K_LSHR, a, b);
    if (b->k == K_CONST) {
      if (k == K_LSHR && b->c >= w) return mkConst(0, w);
      if (a->k == K_SHL && a->o[1]->k == K_CONST && a->o[1]->c == b->c) {
        Expr *x = a->o[0];
        unsigned __int128 h = (unsigned __int128)x->hi << b->c;
        if (k == K_LSHR && h <= M) return x;
        if (k == K_ASHR && h <= (M >> 1)) return x;
        if (k == K_ASHR) { // shl of a sign-extended small value
          if (x->k == K_SEXT && x->o[0]->w + b->c <= w) return x;
          unsigned nw = w - b->c; return mkSExt(mkExtract(x, 0, nw), w);
        }
        if (k == K_LSHR) { unsigned nw = w - b->c; return mkZExt(mkExtract(x, 0, nw), w); }
      }
      if (k == K_LSHR && b->c < w) return mkZExt(mkExtract(a, b->c, w - b->c), w);
    }
    break;
  case K_EQ:
    if (a == b) return mkBool(true);
    if (a->hi < b->lo || b->hi < a->lo) return mkBool(false);
    if (w == 1) { if (b->k == K_CONST) return b->c ? a : mkNot(a); }
    if (b->k == K_CONST) {
      if (a->k == K_ZEXT) return (b->c > maskw(a->o[0]->w)) ? mkBool(false) : mkBin(K_EQ, a->o[0], mkConst(b->c, a->o[0]->w));
      if (a->k == K_SEXT) { Expr *x = a->o[0]; uint64_t t = b->c & maskw(x->w); return ((uint64_t)sext64(t, x->w) & M) == b->c ? mkBin(K_EQ, x, mkConst(t, x->w)) : mkBool(false); }
      if (a->k == K_ADD && a->o[1]->k == K_CONST) return mkBin(K_EQ, a->o[0], mkConst(b->c - a->o[1]->c, w));
      if (a->k == K_SUB && b->c == 0) return mkBin(K_EQ, a->o[0], a->o[1]);
      if (a->k == K_SUB && a->o[0]->k == K_CONST) return mkBin(K_EQ, a->o[1], mkConst(a->o[0]->c - b->c, w));
      if (a->k == K_XOR && b->c == 0) return mkBin(K_EQ, a->o[0], a->o[1]);
      if (a->k == K_XOR && a->o[1]->k == K_CONST) return mkBin(K_EQ, a->o[0], mkConst(b->c ^ a->o[1]->c, w));
      if (a->k == K_NOT) return mkBin(K_EQ, a->o[0], mkConst(~b->c, w));
      if (a->k == K_SHL && a->o[1]->k == K_CONST) {
        unsigned sh = a->o[1]->c; if (b->c & maskw(sh)) return mkBool(false);
        return mkBin(K_EQ, mkExtract(a->o[0], 0, w - sh), mkConst(b->c >> sh, w - sh));
      }
      if (a->k == K_CONCAT) {
        Expr *h = a->o[0], *l = a->o[1];
        return mkBin(K_AND, mkBin(K_EQ, h, mkConst(b->c >> l->w, h->w)), mkBin(K_EQ, l, mkConst(b->c, l->w)));
      }
      if (a->k == K_ITE) {
        if (a->o[1]->k == K_CONST || a->o[2]->k == K_CONST)
          return mkIte(a->o[0], mkBin(K_EQ, a->o[1], b), mkBin(K_EQ, a->o[2], b));
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) {
        unsigned m = std::max(a->o[0]->w, b->o[0]->w);
        return mkBin(K_EQ, mkZExt(a->o[0], m), mkZExt(b->o[0], m));
      }
      if (a->k == K_SEXT && b->k == K_SEXT && a->o[0]->w == b->o[0]->w) return mkBin(K_EQ, a->o[0], b->o[0]);
      if (a->k == K_ADD && b->k == K_ADD && a->o[1]->k == K_CONST && a->o[1] == b->o[1]) return mkBin(K_EQ, a->o[0], b->o[0]);
      if (a->k == K_ADD && a->o[0] == b) return mkBin(K_EQ, a->o[1], mkConst(0, w));
      if (b->k == K_ADD && b->o[0] == a) return mkBin(K_EQ, b->o[1], mkConst(0, w));
    }
    break;
  case K_ULT: case K_ULE: {
    bool strict = k == K_ULT;
    if (a == b) return mkBool(!strict);
    if (strict ? a->hi < b->lo : a->hi <= b->lo) return mkBool(true);
    if (strict ? a->lo >= b->hi : a->lo > b->hi) return mkBool(false);
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned m = std::max(a->o[0]->w, b->o[0]->w);
      return mkBin(k, mkZExt(a->o[0], m), mkZExt(b->o[0], m));
    }
    // ranges guarantee b's constant fits here
    if (a->k == K_ZEXT && b->k == K_CONST && b->c <= maskw(a->o[0]->w)) return mkBin(k, a->o[0], mkConst(b->c, a->o[0]->w));
    if (b->k == K_ZEXT && a->k == K_CONST && a->c <= maskw(b->o[0]->w)) return mkBin(k, mkConst(a->c, b->o[0]->w), b->o[0]);
    if (strict && isC(b, 1)) return mkBin(K_EQ, a, mkConst(0, w));
    if (!strict && isC(b, 0)) return mkBin(K_EQ, a, b);
    if (strict && isC(a, 0)) return mkNot(mkBin(K_EQ, b, a));
    if (!strict && isC(a, 1)) return mkNot(mkBin(K_EQ, b, mkConst(0, w)));
    // x + c1 < c2 with no overflow in x + c1
    if (a->k == K_ADD && a->o[1]->k == K_CONST && b->k == K_CONST) {
      uint64_t c1 = a->o[1]->c; Expr *x = a->o[0];
      if (c1 <= (M >> 1)) { if (x->hi + c1 >= x->hi && x->hi + c1 <= M && b->c >= c1) return mkBin(k, x, mkConst(b->c - c1, w)); }
      else { uint64_t kk = (M - c1) + 1; if (x->lo >= kk && b->c + kk >= b->c && b->c + kk <= M) return mkBin(k, x, mkConst(b->c + kk, w)); }
    }
    if (w == 1) { // a<b : !a & b ; a<=b : !a | b
      return strict ? mkBin(K_AND, mkNot(a), b) : mkBin(K_OR, mkNot(a), b);
    }
    break; }
  case K_SLT: case K_SLE: {
    bool strict = k == K_SLT;
    if (a == b) return mkBool(!strict);
    uint64_t half = M >> 1;
    if (a->hi <= half && b->hi <= half) return mkBin(strict ? K_ULT : K_ULE, a, b);
    if (a->lo > half && b->lo > half) return mkBin(strict ? K_ULT : K_ULE, a, b);
    if (a->lo > half && b->hi <= half) return mkBool(true);
    if (a->hi <= half && b->lo > half) return mkBool(false);
    if (a->k == K_SEXT && b->k == K_SEXT && a->o[0]->w == b->o[0]->w) return mkBin(k, a->o[0], b->o[0]);
    if (a->k == K_SEXT && b->k == K_CONST) { uint64_t t = b->c & maskw(a->o[0]->w); if (((uint64_t)sext64(t, a->o[0]->w) & M) == b->c) return mkBin(k, a->o[0], mkConst(t, a->o[0]->w)); }
    if (b->k == K_SEXT && a->k == K_CONST) { uint64_t t = a->c & maskw(b->o[0]->w); if (((uint64_t)sext64(t, b->o[0]->w) & M) == a->c) return mkBin(k, mkConst(t, b->o[0]->w), b->o[0]); }
    break; }
  default: break;
  }
  return mk(k, cmp ? 1 : w, 0, a, b);
}

Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkConst(a->c >> off, w);
  case K_EXTRACT: return mkExtract(a->o[0], a->c + off, w);
  case K_CONCAT: {
    unsigned lw = a->o[1]->w;
    if (off + w <= lw) return mkExtract(a->o[1], off, w);
    if (off >= lw) return mkExtract(a->o[0], off - lw, w);
    return mkConcat(mkExtract(a->o[0], 0, off + w - lw), mkExtract(a->o[1], off, lw - off)); }
  case K_ZEXT: {
    unsigned iw = a->o[0]->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->o[0], off, w);
    return mkZExt(mkExtract(a->o[0], off, iw - off), w); }
  case K_SEXT: {
    unsigned iw = a->o[0]->w;
    if (off + w <= iw) return mkExtract(a->o[0], off, w);
    if (off < iw) return mkSExt(mkExtract(a->o[0], off, iw - off), w);
    break; }
  case K_ITE:
    if (a->o[1]->k == K_CONST || a->o[2]->k == K_CONST) return mkIte(a->o[0], mkExtract(a->o[1], off, w), mkExtract(a->o[2], off, w));
    break;
  case K_NOT: return mkNot(mkExtract(a->o[0], off, w));
  case K_AND: case K_OR: case K_XOR:
    if (a->o[1]->k == K_CONST) return mkBin(a->k, mkExtract(a->o[0], off, w), mkExtract(a->o[1], off, w));
    break;
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0 && (a->o[1]->k == K_CONST || a->o[0]->k == K_ZEXT || a->o[0]->k == K_SEXT) &&
        (a->o[0]->k == K_ZEXT || a->o[0]->k == K_SEXT || a->o[0]->k == K_CONCAT)) 
      return mkBin(a->k, mkExtract(a->o[0], 0, w), mkExtract(a->o[1], 0, w));
    break;
  case K_SHL:
    if (a->o[1]->k == K_CONST && a->w <= 64) {
      unsigned sh = a->o[1]->c;
      if (off >= sh) return mkExtract(a->o[0], off - sh, w);
      if (off + w <= sh) return mkConst(0, w);
      return mkConcat(mkExtract(a->o[0], 0, off + w - sh), mkConst(0, sh - off));
    }
    break;
  default: break;
  }
  return mk(K_EXTRACT, w, off, a);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (w <= 64) {
    if (a->k == K_CONST) return mkConst(a->c, w);
    if (constArms(a)) return mkIte(a->o[0], mkConst(a->o[1]->c, w), mkConst(a->o[2]->c, w));
    // zext(extract(x,0,n)) where x already fits
    if (a->k == K_EXTRACT && a->c == 0 && a->o[0]->w == w && a->o[0]->hi <= maskw(a->w)) return a->o[0];
  }
  if (a->k == K_ZEXT) return mkZExt(a->o[0], w);
  return mk(K_ZEXT, w, 0, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (w <= 64 && a->k == K_CONST) return mkConst((uint64_t)sext64(a->c, a->w), w);
  if (a->w <= 64 && a->w > 1 && a->hi <= (maskw(a->w) >> 1)) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->o[0], w);
  if (a->k == K_ZEXT) return mkZExt(a->o[0], w);
  if (w <= 64 && a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
  if (w <= 64 && constArms(a)) return mkIte(a->o[0], mkSExt(a->o[1], w), mkSExt(a->o[2], w));
  return mk(K_SEXT, w, 0, a);
}
Expr *mkConcat(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (w <= 64 && h->k == K_CONST && l->k == K_CONST) return mkConst((h->c << l->w) | l->c, w);
  if (h->k == K_CONST && h->c == 0 && w <= 64) return mkZExt(l, w);
  if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->o[0] == l->o[0] && l->c + l->w == h->c) return mkExtract(l->o[0], l->c, w);
  if (h->k == K_EXTRACT && h->o[0] == l && h->c == l->w) return mkExtract(l, 0, w);
  if (l->k == K_CONCAT) { // right-leaning to left: merge adjacent extracts
    Expr *m = l->o[0];
    if (h->k == K_EXTRACT && m->k == K_EXTRACT && h->o[0] == m->o[0] && m->c + m->w == h->c) return mkConcat(mkExtract(m->o[0], m->c, h->w + m->w), l->o[1]);
  }
  if (h->k == K_ZEXT && w <= 64) return mkZExt(mkConcat(h->o[0], l), w);
  return mk(K_CONCAT, w, 0, h, l);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->k == K_CONST) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->o[0], b, a);
  if (a->w == 1) {
    if (isC(a, 1)) { if (isC(b, 0)) return c; return mkBin(K_OR, c, b); }
    if (isC(a, 0)) { if (isC(b, 1)) return mkNot(c); return mkBin(K_AND, mkNot(c), b); }
    if (isC(b, 0)) return mkBin(K_AND, c, a);
    if (isC(b, 1)) return mkBin(K_OR, mkNot(c), a);
  }
  if (a->k == K_ITE && a->o[0] == c) a = a->o[1];
  if (b->k == K_ITE && b->o[0] == c) b = b->o[2];
  if (a == b) return a;
  return mk(K_ITE, a->w, 0, c, a, b);
}

static uint64_t fpValue(Expr *e, uint64_t n) {
  double d = e->k == K_FDY ? ldexp((double)(int64_t)(n - e->o[1]->c), -(int)(int64_t)e->c) : ldexp((double)n / (double)e->o[1]->c, -(int)(int64_t)e->c);
  uint64_t r; memcpy(&r, &d, 8); return r;
}

// ---------- doubles computed from bounded integers ----------
// A value is (n - bias) * 2^-k with n an unsigned expression; all results are kept exact (below 2^53 in magnitude), so
// no rounding happens.  K_FQ is one correctly rounded division whose operands are below 2^52: it is strictly monotone in
// its numerator and comparisons with / rounding to integers agree with those of the exact quotient.
struct FV { Expr *n; int64_t bias; int k; };
static const int64_t F53 = 1ll << 53, F52 = 1ll << 52, F61 = 1ll << 61;
static Expr *c64(uint64_t v) { return mkConst(v, 64); }
static Expr *dconst(double d) { uint64_t r; memcpy(&r, &d, 8); return c64(r); }
static bool asF(Expr *e, FV &f) {
  if (e->w != 64) return false;
  if (e->k == K_CONST) {
    double d; memcpy(&d, &e->c, 8); if (!std::isfinite(d)) return false;
    if (d == 0) { f = {c64(0), 0, 0}; return true; }
    int x; double m = frexp(d, &x); int64_t i = (int64_t)ldexp(m, 53); int k = 53 - x; while (!(i & 1)) { i /= 2; k--; }
    f = {c64(i > 0 ? i : 0), i > 0 ? 0 : -i, k}; return true;
  }
  if (e->k == K_FDY) { f = {e->o[0], (int64_t)e->o[1]->c, (int)(int64_t)e->c}; return true; }
  return false;
}
static bool sane(const FV &f) { return f.n->hi < (uint64_t)F61 && f.bias > -F61 && f.bias < F61; }
static int64_t flo(const FV &f) { return (int64_t)f.n->lo - f.bias; }
static int64_t fhi(const FV &f) { return (int64_t)f.n->hi - f.bias; }
static Expr *mkF(FV f) {
  if (!sane(f) || flo(f) <= -F53 || fhi(f) >= F53 || f.k > 900 || f.k < -900) return nullptr;
  if (f.bias < 0) { f.n = mkBin(K_ADD, f.n, c64(-f.bias)); f.bias = 0; }
  else if (f.bias > 0 && f.n->lo >= (uint64_t)f.bias) { f.n = mkBin(K_SUB, f.n, c64(f.bias)); f.bias = 0; }
  if (f.n->k == K_CONST) return dconst(ldexp((double)((int64_t)f.n->c - f.bias), -f.k));
  return mk(K_FDY, 64, (uint64_t)(int64_t)f.k, f.n, c64(f.bias));
}
static Expr *mkFp(Kind k, Expr *n, Expr *d, int sc) {
  if (k == K_FDY) { Expr *r = mkF({n, (int64_t)d->c, sc}); return r ? r : mk(K_FDY, 64, (uint64_t)(int64_t)sc, n, d); }
  if (n->k == K_CONST) return dconst(ldexp((double)n->c / (double)d->c, -sc));
  return mk(K_FQ, 64, (uint64_t)(int64_t)sc, n, d);
}
bool fpIs(Expr *e) { return e->k == K_FDY || e->k == K_FQ; }
Expr *fpFromUInt(Expr *n) { return mkF({n, 0, 0}); }
Expr *fpFromSInt(Expr *x, unsigned w) { if (w > 32) return nullptr; return mkF({mkZExt(mkBin(K_XOR, x, mkConst(1ull << (w - 1), w)), 64), 1ll << (w - 1), 0}); }
static bool scaleUp(FV &f, int k) { // to the larger scale k
  int s = k - f.k; if (s < 0) return false; if (s == 0) return sane(f);
  if (s > 60 || !sane(f) || (f.n->hi >> (61 - s)) || (llabs(f.bias) >> (61 - s))) return false;
  f.n = mkBin(K_SHL, f.n, c64(s)); f.bias = f.bias * (1ll << s); f.k = k; return true;
}
static FV fneg(const FV &f) { return {mkBin(K_SUB, c64(f.n->hi), f.n), (int64_t)f.n->hi - f.bias, f.k}; }
Expr *fpNeg(Expr *a) { FV f; if (!asF(a, f) || !sane(f)) return nullptr; return mkF(fneg(f)); }
Expr *fpBin(FpOp op, Expr *a, Expr *b) {
  FV x, y;
  if (a->k == K_FQ || b->k == K_FQ) { // scaling by a power of two is exact
    if (op == FP_MUL && b->k == K_FQ) std::swap(a, b);
    if (a->k != K_FQ || (op != FP_MUL && op != FP_DIV) || b->k != K_CONST || !asF(b, y) || y.bias != 0 || y.n->c != 1) return nullptr;
    int k = (int)(int64_t)a->c + (op == FP_MUL ? y.k : -y.k); if (k > 900 || k < -900) return nullptr;
    return mkFp(K_FQ, a->o[0], a->o[1], k);
  }
  if (!asF(a, x) || !asF(b, y) || !sane(x) || !sane(y)) return nullptr;
  switch (op) {
  case FP_SUB: y = fneg(y); // fall through
  case FP_ADD: { 
    if (y.n->k == K_CONST && (int64_t)y.n->c == y.bias) return mkF(x);
    if (x.n->k == K_CONST && (int64_t)x.n->c == x.bias) return mkF(y);
    int k = std::max(x.k, y.k); if (!scaleUp(x, k) || !scaleUp(y, k)) return nullptr; return mkF({mkBin(K_ADD, x.n, y.n), x.bias + y.bias, k}); }
  case FP_MUL: {
    if (x.n->k == K_CONST) std::swap(x, y);
    if (y.n->k == K_CONST) {
      int64_t m = (int64_t)y.n->c - y.bias; if (m < 0) { x = fneg(x); m = -m; }
      if (m == 0) return dconst(0.0);
      if ((unsigned __int128)x.n->hi * m >= (unsigned __int128)F61 || (__int128)llabs(x.bias) * m >= (__int128)F61) return nullptr;
      return mkF({mkBin(K_MUL, x.n, c64(m)), x.bias * m, x.k + y.k});
    }
    if (x.bias || y.bias || (unsigned __int128)x.n->hi * y.n->hi >= (unsigned __int128)F53) return nullptr;
    return mkF({mkBin(K_MUL, x.n, y.n), 0, x.k + y.k}); }
  case FP_DIV: {
    if (y.n->k != K_CONST) return nullptr;
    int64_t m = (int64_t)y.n->c - y.bias; if (m == 0) return nullptr;
    if (m < 0) { x = fneg(x); m = -m; }
    if (m == 1) return mkF({x.n, x.bias, x.k - y.k});
    if (x.n->k == K_MUL && x.n->o[1]->k == K_CONST && x.n->o[1]->c % m == 0 && x.bias % m == 0 && (unsigned __int128)x.n->o[0]->hi * x.n->o[1]->c < (unsigned __int128)F61) return mkF({mkBin(K_MUL, x.n->o[0], c64(x.n->o[1]->c / m)), x.bias / m, x.k - y.k});
    if (x.bias || x.n->hi >= (uint64_t)F52 || m >= F52) return nullptr;
    return mkFp(K_FQ, x.n, c64(m), x.k - y.k); }
  }
  return nullptr;
}
static Expr *relC(int rel, int sign) { return mkBool(sign < 0 ? rel & 1 : sign == 0 ? rel & 2 : rel & 4); }
static Expr *relE(int rel, Expr *a, Expr *b) { // unsigned
  switch (rel) { case 0: return mkBool(false); case 1: return mkBin(K_ULT, a, b); case 2: return mkBin(K_EQ, a, b); case 3: return mkBin(K_ULE, a, b); case 4: return mkBin(K_ULT, b, a); case 5: return mkNot(mkBin(K_EQ, a, b)); case 6: return mkBin(K_ULE, b, a); default: return mkBool(true); }
}
static Expr *cmpThreshold(int rel, Expr *n, int64_t lo, int64_t hi, int64_t bias, double t) { // (n - bias) against t
  if (t > (double)hi) return relC(rel, -1);
  if (t < (double)lo) return relC(rel, 1);
  double fl = floor(t); bool whole = fl == t; int64_t T = (int64_t)fl + bias; // n against T (+ a fraction)
  if (T < 0) return relC(rel, 1);
  if (whole) return relE(rel, n, c64(T));
  // n < T+frac iff n <= T
  bool lt = rel & 1, gt = rel & 4; if (lt && gt) return mkBool(true); if (lt) return mkBin(K_ULE, n, c64(T)); if (gt) return mkBin(K_ULT, c64(T), n); return mkBool(false);
}
Expr *fpCmp(int rel, Expr *a, Expr *b) {
  if (a->k == K_CONST && b->k != K_CONST) { std::swap(a, b); rel = (rel & 2) | (rel & 1 ? 4 : 0) | (rel & 4 ? 1 : 0); }
  FV x, y;
  if (b->k == K_CONST) {
    double d; memcpy(&d, &b->c, 8); if (std::isnan(d)) return nullptr;
    if (std::isinf(d)) return fpIs(a) ? relC(rel, d > 0 ? -1 : 1) : nullptr;
    if (a->k == K_FQ) {
      // compare the numerator with d * o1 * 2^c; the rounded quotient decides as the exact one unless they are too close
      long double M = ldexpl((long double)d * (long double)a->o[1]->c, (int)(int64_t)a->c); 
      if (M > (long double)a->o[0]->hi + 1) return relC(rel, -1);
      if (M < 0) return relC(rel, 1);
      long double n = roundl(M); bool exact = n == M && (a->o[1]->c < (1u << 11) || d == floor(d));
      if (!exact && fabsl(M - n) < 1e-6L) return nullptr; // unclear
      if (!exact && M > 1e9L) return nullptr;
      return cmpThreshold(rel, a->o[0], a->o[0]->lo, a->o[0]->hi, 0, (double)(exact ? n : floorl(M) + 0.5L));
    }
    if (!asF(a, x) || !sane(x)) return nullptr;
    return cmpThreshold(rel, x.n, flo(x), fhi(x), x.bias, ldexp(d, x.k));
  }
  if (a->k == K_FQ && b->k == K_FQ && a->o[1] == b->o[1] && a->c == b->c) return relE(rel, a->o[0], b->o[0]);
  if (b->k == K_FQ && a->k == K_FDY) { std::swap(a, b); rel = (rel & 2) | (rel & 1 ? 4 : 0) | (rel & 4 ? 1 : 0); }
  if (a->k == K_FQ && b->k == K_FDY && asF(b, y) && sane(y) && flo(y) >= 0 && y.bias == 0) { // against an integer multiple of 2^-y.k: numerator against y * o1 * 2^c
    int sh = (int)(int64_t)a->c - y.k; unsigned __int128 top = (unsigned __int128)y.n->hi * a->o[1]->c; Expr *l = a->o[0], *r = mkBin(K_MUL, y.n, a->o[1]);
    if (top >= (unsigned __int128)F52) return nullptr;
    if (sh >= 0) { if (sh > 50 || (top >> (52 - sh))) { return nullptr; } r = mkBin(K_SHL, r, c64(sh)); }
    else { if (sh < -50 || (l->hi >> (52 + sh))) return nullptr; l = mkBin(K_SHL, l, c64(-sh)); }
    return relE(rel, l, r);
  }
  if (!asF(a, x) || !asF(b, y) || !sane(x) || !sane(y)) return nullptr;
  long double al = ldexpl(flo(x), -x.k), ah = ldexpl(fhi(x), -x.k), bl = ldexpl(flo(y), -y.k), bh = ldexpl(fhi(y), -y.k);
  if (ah < bl) return relC(rel, -1);
  if (al > bh) return relC(rel, 1);
  int k = std::max(x.k, y.k); if (!scaleUp(x, k) || !scaleUp(y, k)) return nullptr;
  Expr *l = x.n, *r = y.n; int64_t d = x.bias - y.bias; // l - x.bias ? r - y.bias
  if (d > 0) r = mkBin(K_ADD, r, c64(d)); else if (d < 0) l = mkBin(K_ADD, l, c64(-d));
  return relE(rel, l, r);
}
static Expr *fpBitsEq(Expr *a, Expr *b) {
  if (a == b) return mkBool(true);
  if (a->k == K_CONST) std::swap(a, b);
  if (b->k == K_CONST) {
    double d; memcpy(&d, &b->c, 8); if (!std::isfinite(d) || (d == 0 && std::signbit(d))) return mkBool(false);
    if (a->k == K_FQ) {
      long double M = ldexpl((long double)d * (long double)a->o[1]->c, (int)(int64_t)a->c); if (M < 0 || M > 1e18L) return mkBool(false);
      uint64_t n = (uint64_t)roundl(M); for (uint64_t t = n ? n - 1 : 0; t <= n + 1; t++) if (fpValue(a, t) == b->c) return mkBin(K_EQ, a->o[0], c64(t));
      return mkBool(false);
    }
    return fpCmp(2, a, b);
  }
  if (fpIs(a) && fpIs(b)) return fpCmp(2, a, b);
  return nullptr;
}
Expr *fpNonNeg(Expr *a) { if (a->k == K_FQ) return mkBool(true); return fpCmp(6, a, dconst(0.0)); }
Expr *fpKnownNonNeg(Expr *a) {
  FV f; if (!asF(a, f) || !sane(f) || fhi(f) < 1) return nullptr;
  unsigned b = 64 - __builtin_clzll((uint64_t)fhi(f));
  return mkF({mkZExt(mkExtract(mkBin(K_SUB, f.n, c64(f.bias)), 0, b), 64), 0, f.k});
}
Expr *fpRound(Expr *a, int mode) {
  FV f;
  if (a->k == K_FQ) {
    int k = (int)(int64_t)a->c; Expr *n = a->o[0]; uint64_t D = a->o[1]->c;
    if (k >= 0) { if (k > 50 || (D >> (52 - k))) return nullptr; D <<= k; } else { if (k < -50 || (n->hi >> (52 + k))) return nullptr; n = mkBin(K_SHL, n, c64(-k)); }
    if (n->hi + D >= (uint64_t)F52) return nullptr;
    if (mode == 1) n = mkBin(K_ADD, n, c64(D - 1)); else if (mode == 3) return nullptr;
    return mkF({mkBin(K_UDIV, n, c64(D)), 0, 0});
  }
  if (!asF(a, f) || !sane(f)) return nullptr;
  if (f.k <= 0) return a;
  if (f.k > 60) return nullptr;
  if (mode >= 2 && flo(f) < 0) return nullptr;
  int64_t one = 1ll << f.k, add = mode == 1 ? one - 1 : mode == 3 ? one / 2 : 0;
  int64_t b = (f.bias + one - 1) / one * one; // a multiple of one, not below the bias (bias >= 0 after mkF)
  if (f.bias < 0) return nullptr;
  if ((unsigned __int128)f.n->hi + (b - f.bias) + add >= (unsigned __int128)F61) return nullptr;
  Expr *n = mkBin(K_ADD, f.n, c64(b - f.bias + add));
  return mkF({mkBin(K_LSHR, n, c64(f.k)), b >> f.k, 0});
}
Expr *fpToInt(Expr *a, bool nonneg) {
  if (a->k == K_FQ) { a = fpRound(a, 0); if (!a) return nullptr; if (a->k == K_CONST) { double d; memcpy(&d, &a->c, 8); return c64((uint64_t)d); } }
  FV f; if (!asF(a, f) || !sane(f)) return nullptr;
  Expr *m = nonneg ? mkBin(K_SUB, f.n, c64(f.bias)) : mkBin(K_SUB, c64(f.bias), f.n);
  if (f.k >= 64) m = c64(0); else if (f.k > 0) m = mkBin(K_LSHR, m, c64(f.k)); else if (f.k < 0) { int64_t top = nonneg ? fhi(f) : -flo(f); if (f.k < -60 || (top > 0 && ((uint64_t)top >> (63 + f.k)))) return nullptr; m = mkBin(K_SHL, m, c64(-f.k)); }
  return nonneg ? m : mkBin(K_SUB, c64(0), m);
}

static const char *kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fdy","fq"};
std::string exprStr(Expr *e, int depth) {
  char buf[64];
  if (e->k == K_CONST) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->k == K_VAR) return g_vars[e->c].name + "#" + std::to_string(e->c);
  if (depth == 0) return "...";
  std::string s = "("; s += kn[e->k];
  if (e->k == K_EXTRACT) s += "[" + std::to_string(e->c) + ":" + std::to_string(e->w) + "]";
  if (e->k == K_ZEXT || e->k == K_SEXT) s += std::to_string(e->w);
  if (e->k == K_FDY || e->k == K_FQ) s += "[" + std::to_string((int64_t)e->c) + "]";
  for (int i = 0; i < 3 && e->o[i]; i++) s += " " + exprStr(e->o[i], depth - 1);
  return s + ")";
}

// ---------- evaluation ----------
typedef unsigned __int128 u128;
static u128 evalWide(Expr *e, const std::vector<uint64_t> &m);
static uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m) {
  if (e->k == K_CONST) return e->c;
  if (e->ep == g_evalEpoch) return e->ev;
  uint64_t r;
  switch (e->k) {
  case K_VAR: r = e->c < m.size() ? m[e->c] : g_vars[e->c].lo; break;
  case K_NOT: r = ~evalRec(e->o[0], m) & maskw(e->w); break;
  case K_ZEXT: r = evalRec(e->o[0], m); break;
  case K_SEXT: r = (uint64_t)sext64(evalRec(e->o[0], m), e->o[0]->w) & maskw(e->w); break;
  case K_EXTRACT: r = (e->o[0]->w > 64 ? (uint64_t)(evalWide(e->o[0], m) >> e->c) : (evalRec(e->o[0], m) >> e->c)) & maskw(e->w); break;
  case K_CONCAT: r = (evalRec(e->o[0], m) << e->o[1]->w) | evalRec(e->o[1], m); break;
  case K_ITE: r = evalRec(e->o[0], m) ? evalRec(e->o[1], m) : evalRec(e->o[2], m); break;
  case K_FDY: case K_FQ: r = fpValue(e, evalRec(e->o[0], m)); break;
  default:
    if (e->o[0]->w > 64) {
      u128 a = evalWide(e->o[0], m), b = evalWide(e->o[1], m); unsigned w = e->o[0]->w;
      __int128 sa = (__int128)(a << (128 - w)) >> (128 - w), sb = (__int128)(b << (128 - w)) >> (128 - w);
      switch (e->k) { case K_EQ: r = a == b; break; case K_ULT: r = a < b; break; case K_ULE: r = a <= b; break; case K_SLT: r = sa < sb; break; case K_SLE: r = sa <= sb; break; default: abort(); }
    } else r = foldBin(e->k, evalRec(e->o[0], m), evalRec(e->o[1], m), e->o[0]->w);
  }
  e->ev = r; e->ep = g_evalEpoch;
  return r;
}
static u128 evalWide(Expr *e, const std::vector<uint64_t> &m) {
  if (e->w <= 64) return evalRec(e, m);
  if (e->w > 128) { fprintf(stderr, "evalWide: width %u\n", e->w); abort(); }
  u128 M = e->w == 128 ? ~(u128)0 : (((u128)1 << e->w) - 1);
  u128 r;
  switch (e->k) {
  case K_NOT: r = ~evalWide(e->o[0], m); break;
  case K_ZEXT: r = evalWide(e->o[0], m); break;
  case K_SEXT: { u128 x = evalWide(e->o[0], m); unsigned iw = e->o[0]->w; r = (u128)((__int128)(x << (128 - iw)) >> (128 - iw)); break; }
  case K_EXTRACT: r = evalWide(e->o[0], m) >> e->c; break;
  case K_CONCAT: r = (evalWide(e->o[0], m) << e->o[1]->w) | evalWide(e->o[1], m); break;
  case K_ITE: r = evalRec(e->o[0], m) ? evalWide(e->o[1], m) : evalWide(e->o[2], m); break;
  default: {
    u128 a = evalWide(e->o[0], m), b = evalWide(e->o[1], m);
    switch (e->k) {
    case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break;
    case K_AND: r = a & b; break; case K_OR: r = a | b; break; case K_XOR: r = a ^ b; break;
    case K_UDIV: r = b ? a / b : M; break; case K_UREM: r = b ? a % b : a; break;
    case K_SHL: r = b >= e->w ? 0 : a << (unsigned)b; break; case K_LSHR: r = b >= e->w ? 0 : a >> (unsigned)b; break;
    case K_ASHR: { __int128 x = (__int128)(a << (128 - e->w)) >> (128 - e->w); r = (u128)(x >> (b >= e->w ? 127 : (unsigned)b)); break; }
    default: fprintf(stderr, "evalWide: op %d\n", e->k); abort();
    } }
  }
  return r & M;
}
static void bumpEpoch() { if (++g_evalEpoch == 0) g_evalEpoch = 1; }
static const std::vector<uint64_t> *lastModel = nullptr;
uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &model) {
  bumpEpoch();
  return evalRec(e, model);
}

static Expr *substRec(Expr *e, const std::map<uint32_t, Expr *> &fx, std::unordered_map<uint32_t, Expr *> &memo) {
  bool any = false; for (uint32_t v : e->vs->v) if (fx.count(v)) { any = true; break; }
  if (!any) return e;
  if (e->k == K_VAR) return fx.at((uint32_t)e->c);
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Expr *o[3] = {nullptr, nullptr, nullptr};
  for (int i = 0; i < 3; i++) if (e->o[i]) o[i] = substRec(e->o[i], fx, memo);
  Expr *r;
  switch (e->k) {
  case K_NOT: r = mkNot(o[0]); break;
  case K_ZEXT: r = mkZExt(o[0], e->w); break;
  case K_SEXT: r = mkSExt(o[0], e->w); break;
  case K_EXTRACT: r = mkExtract(o[0], e->c, e->w); break;
  case K_CONCAT: r = mkConcat(o[0], o[1]); break;
  case K_ITE: r = mkIte(o[0], o[1], o[2]); break;
  case K_FDY: case K_FQ: r = mkFp(e->k, o[0], o[1], (int)(int64_t)e->c); break;
  default: r = mkBin(e->k, o[0], o[1]); break;
  }
  return memo[e->id] = r;
}
Expr *substExpr(Expr *e, const std::map<uint32_t, Expr *> &fixed) { std::unordered_map<uint32_t, Expr *> memo; return substRec(e, fixed, memo); }

static Expr *replRec(Expr *e, Expr *what, Expr *by) {
  if (e == what) return by;
  if (!e->o[0] || e->vs->v.empty()) return e;
  Expr *o[3] = {nullptr, nullptr, nullptr}; bool ch = false;
  for (int i = 0; i < 3; i++) if (e->o[i]) { o[i] = replRec(e->o[i], what, by); ch |= o[i] != e->o[i]; }
  if (!ch) return e;
  switch (e->k) {
  case K_NOT: return mkNot(o[0]);
  case K_ZEXT: return mkZExt(o[0], e->w);
  case K_SEXT: return mkSExt(o[0], e->w);
  case K_EXTRACT: return mkExtract(o[0], e->c, e->w);
  case K_CONCAT: return mkConcat(o[0], o[1]);
  case K_ITE: return mkIte(o[0], o[1], o[2]);
  case K_FDY: case K_FQ: return mkFp(e->k, o[0], o[1], (int)(int64_t)e->c);
  default: return mkBin(e->k, o[0], o[1]);
  }
}
Expr *findIte(Expr *e, int depth) {
  if (e->k == K_ITE) return e;
  if (depth <= 0 || e->w == 1 || e->vs->v.empty()) return nullptr;
  for (int i = 0; i < 3; i++) if (e->o[i]) if (Expr *r = findIte(e->o[i], depth - 1)) return r;
  return nullptr;
}
static bool constTree(Expr *e, int d) { return e->k == K_CONST || (d > 0 && e->k == K_ITE && constTree(e->o[1], d - 1) && constTree(e->o[2], d - 1)); }
Expr *findCtlIte(Expr *e, int depth) {
  if (e->k == K_ITE && e->w >= 32 && constTree(e, 6)) return e;
  if (depth <= 0 || e->vs->v.empty()) return nullptr;
  for (int i = 0; i < 3; i++) if (e->o[i]) if (Expr *r = findCtlIte(e->o[i], depth - 1)) return r;
  return nullptr;
}
Expr *replaceNode(Expr *e, Expr *what, Expr *by) { return replRec(e, what, by); }

// ---------- z3 ----------
SolverStats g_ss;
static Z3_context ctx; static Z3_solver solver;
static Z3_ast toB(Expr *e);
static Z3_ast toBV(Expr *e);
static Z3_ast keep(Z3_ast z) { Z3_inc_ref(ctx, z); return z; } // every node built here stays alive with its expression
#define ZK_and(...) keep(Z3_mk_and(__VA_ARGS__))
#define ZK_bvadd(...) keep(Z3_mk_bvadd(__VA_ARGS__))
#define ZK_bvand(...) keep(Z3_mk_bvand(__VA_ARGS__))
#define ZK_bvashr(...) keep(Z3_mk_bvashr(__VA_ARGS__))
#define ZK_bvlshr(...) keep(Z3_mk_bvlshr(__VA_ARGS__))
#define ZK_bvmul(...) keep(Z3_mk_bvmul(__VA_ARGS__))
#define ZK_bvnot(...) keep(Z3_mk_bvnot(__VA_ARGS__))
#define ZK_bvor(...) keep(Z3_mk_bvor(__VA_ARGS__))
#define ZK_bvsdiv(...) keep(Z3_mk_bvsdiv(__VA_ARGS__))
#define ZK_bvshl(...) keep(Z3_mk_bvshl(__VA_ARGS__))
#define ZK_bvsle(...) keep(Z3_mk_bvsle(__VA_ARGS__))
#define ZK_bvslt(...) keep(Z3_mk_bvslt(__VA_ARGS__))
#define ZK_bvsrem(...) keep(Z3_mk_bvsrem(__VA_ARGS__))
#define ZK_bvsub(...) keep(Z3_mk_bvsub(__VA_ARGS__))
#define ZK_bvudiv(...) keep(Z3_mk_bvudiv(__VA_ARGS__))
#define ZK_bvule(...) keep(Z3_mk_bvule(__VA_ARGS__))
#define ZK_bvult(...) keep(Z3_mk_bvult(__VA_ARGS__))
#define ZK_bvurem(...) keep(Z3_mk_bvurem(__VA_ARGS__))
#define ZK_bvxor(...) keep(Z3_mk_bvxor(__VA_ARGS__))
#define ZK_concat(...) keep(Z3_mk_concat(__VA_ARGS__))
#define ZK_const(...) keep(Z3_mk_const(__VA_ARGS__))
#define ZK_eq(...) keep(Z3_mk_eq(__VA_ARGS__))
#define ZK_extract(...) keep(Z3_mk_extract(__VA_ARGS__))
#define ZK_false(...) keep(Z3_mk_false(__VA_ARGS__))
#define ZK_iff(...) keep(Z3_mk_iff(__VA_ARGS__))
#define ZK_ite(...) keep(Z3_mk_ite(__VA_ARGS__))
#define ZK_not(...) keep(Z3_mk_not(__VA_ARGS__))
#define ZK_or(...) keep(Z3_mk_or(__VA_ARGS__))
#define ZK_sign_ext(...) keep(Z3_mk_sign_ext(__VA_ARGS__))
#define ZK_true(...) keep(Z3_mk_true(__VA_ARGS__))
#define ZK_unsigned_int64(...) keep(Z3_mk_unsigned_int64(__VA_ARGS__))
#define ZK_xor(...) keep(Z3_mk_xor(__VA_ARGS__))
#define ZK_zero_ext(...) keep(Z3_mk_zero_ext(__VA_ARGS__))
// Translation at the width the value range needs: toN(e) has width nw(e) and toBV(e) == zero_extend(toN(e)).  The
// ranges follow from the declared ranges of the variables, which are asserted with every query.
static Z3_sort bvs(unsigned w) { static std::vector<Z3_sort> c; if (c.size() <= w) c.resize(w + 1, nullptr); if (!c[w]) { c[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, c[w])); } return c[w]; }
static unsigned nw(Expr *e) { if (e->w > 64) return e->w; unsigned n = e->hi ? 64 - __builtin_clzll(e->hi) : 1; return n < e->w ? n : e->w; }
static std::unordered_map<uint32_t, Z3_ast> ncache;
static Z3_ast toN(Expr *e);
static Z3_ast fit(Expr *e, unsigned w) { // e at width w, w >= nw(e) or truncating
  Z3_ast z = toN(e); unsigned n = nw(e);
  if (n == w) return z;
  return n < w ? ZK_zero_ext(ctx, w - n, z) : ZK_extract(ctx, w - 1, 0, z);
}
static Z3_ast toNraw(Expr *e, unsigned n) {
  Expr *a = e->o[0], *b = e->o[1];
  auto mx = [&]() { unsigned w = std::max(nw(a), nw(b)); return std::max(w, n); };
  auto low = [&](Z3_ast z, unsigned w) { return w == n ? z : ZK_extract(ctx, n - 1, 0, z); };
  if (e->w <= 64) switch (e->k) {
  case K_CONST: return ZK_unsigned_int64(ctx, e->c, bvs(n));
  case K_VAR: { std::string s = "v" + std::to_string(e->c); return ZK_const(ctx, Z3_mk_string_symbol(ctx, s.c_str()), bvs(n)); }
  case K_ZEXT: return fit(a, n);
  case K_SEXT: if (a->w <= 64 && a->hi <= (maskw(a->w) >> 1)) return fit(a, n); break;
  case K_EXTRACT: if (a->w <= 64) { unsigned na = nw(a); if (e->c == 0) return fit(a, n); if (e->c >= na) return ZK_unsigned_int64(ctx, 0, bvs(n)); unsigned top = std::min<unsigned>(na - 1, e->c + n - 1); Z3_ast z = ZK_extract(ctx, top, e->c, toN(a)); unsigned w = top - e->c + 1; return w == n ? z : ZK_zero_ext(ctx, n - w, z); } break;
  // modular operations: the low n bits of the result depend on the low n bits of the operands only
  case K_ADD: return ZK_bvadd(ctx, fit(a, n), fit(b, n));
  case K_SUB: return ZK_bvsub(ctx, fit(a, n), fit(b, n));
  case K_MUL: return ZK_bvmul(ctx, fit(a, n), fit(b, n));
  case K_AND: return ZK_bvand(ctx, fit(a, n), fit(b, n));
  case K_OR: return ZK_bvor(ctx, fit(a, n), fit(b, n));
  case K_XOR: return ZK_bvxor(ctx, fit(a, n), fit(b, n));
  case K_UDIV: if (b->lo > 0) { unsigned w = mx(); return low(ZK_bvudiv(ctx, fit(a, w), fit(b, w)), w); } break;
  case K_UREM: if (b->lo > 0) { unsigned w = mx(); return low(ZK_bvurem(ctx, fit(a, w), fit(b, w)), w); } break;
  case K_SDIV: case K_SREM: { uint64_t H = maskw(e->w) >> 1; if (b->lo > 0 && a->hi <= H && b->hi <= H) { unsigned w = mx(); return low((e->k == K_SDIV ? ZK_bvudiv(ctx, fit(a, w), fit(b, w)) : ZK_bvurem(ctx, fit(a, w), fit(b, w))), w); } break; }
  case K_SHL: if (b->k == K_CONST) { if (b->c >= n) return ZK_unsigned_int64(ctx, 0, bvs(n)); if (!b->c) return fit(a, n); return ZK_concat(ctx, fit(a, n - b->c), ZK_unsigned_int64(ctx, 0, bvs(b->c))); } break;
  case K_LSHR: if (b->k == K_CONST) { unsigned na = nw(a); if (b->c >= na) return ZK_unsigned_int64(ctx, 0, bvs(n)); Z3_ast z = ZK_extract(ctx, na - 1, b->c, toN(a)); unsigned w = na - b->c; return w == n ? z : w < n ? ZK_zero_ext(ctx, n - w, z) : ZK_extract(ctx, n - 1, 0, z); } break;
  case K_ITE: return ZK_ite(ctx, toB(a), fit(b, n), fit(e->o[2], n));
  case K_CONCAT: if (a->hi == 0) return fit(b, n); if (n > b->w) return ZK_concat(ctx, fit(a, n - b->w), toBV(b)); return fit(b, n);
  case K_NOT: return ZK_bvnot(ctx, fit(a, n));
  default: break;
  }
  return nullptr;
}
static Z3_ast toN(Expr *e) {
  unsigned n = nw(e);
  if (n == e->w) return toBV(e);
  auto it = ncache.find(e->id); if (it != ncache.end()) return it->second;
  Z3_ast r = toNraw(e, n);
  if (!r) r = ZK_extract(ctx, n - 1, 0, toBV(e));
  Z3_inc_ref(ctx, r); ncache[e->id] = r; return r;
}
static Z3_ast toBV(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr; unsigned n = nw(e);
  if (n < e->w) { r = toNraw(e, n); if (r) r = ZK_zero_ext(ctx, e->w - n, r); }
  if (!r) switch (e->k) {
  case K_CONST: r = ZK_unsigned_int64(ctx, e->c, bvs(e->w)); break;
  case K_VAR: { std::string n = "v" + std::to_string(e->c); r = ZK_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvs(e->w)); break; }
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE:
    r = ZK_ite(ctx, toB(e), ZK_unsigned_int64(ctx, 1, bvs(1)), ZK_unsigned_int64(ctx, 0, bvs(1))); break;
  case K_NOT: r = ZK_bvnot(ctx, toBV(e->o[0])); break;
  case K_ZEXT: r = ZK_zero_ext(ctx, e->w - e->o[0]->w, toBV(e->o[0])); break;
  case K_SEXT: r = ZK_sign_ext(ctx, e->w - e->o[0]->w, toBV(e->o[0])); break;
  case K_EXTRACT: r = ZK_extract(ctx, e->c + e->w - 1, e->c, toBV(e->o[0])); break;
  case K_CONCAT: r = ZK_concat(ctx, toBV(e->o[0]), toBV(e->o[1])); break;
  case K_ITE: r = ZK_ite(ctx, toB(e->o[0]), toBV(e->o[1]), toBV(e->o[2])); break;
  case K_FDY: case K_FQ: {
    Z3_sort ds = Z3_mk_fpa_sort_double(ctx); Z3_ast rm = keep(Z3_mk_fpa_rne(ctx)); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, ds));
    Z3_ast v = e->k == K_FDY ? keep(Z3_mk_fpa_to_fp_signed(ctx, rm, ZK_bvsub(ctx, toBV(e->o[0]), toBV(e->o[1])), ds)) : keep(Z3_mk_fpa_div(ctx, rm, keep(Z3_mk_fpa_to_fp_unsigned(ctx, rm, toBV(e->o[0]), ds)), keep(Z3_mk_fpa_to_fp_unsigned(ctx, rm, toBV(e->o[1]), ds))));
    r = keep(Z3_mk_fpa_to_ieee_bv(ctx, keep(Z3_mk_fpa_mul(ctx, rm, v, keep(Z3_mk_fpa_numeral_double(ctx, ldexp(1.0, -(int)(int64_t)e->c), ds)))))); break; }
  default: {
    Expr *a0 = e->o[0], *b0 = e->o[1];
    if (e->w <= 64 && b0->lo > 0 && (e->k == K_UDIV || e->k == K_UREM)) { r = toNraw(e, e->w); break; }
    Z3_ast a = toBV(a0), b = toBV(b0);
    switch (e->k) {
    case K_ADD: r = ZK_bvadd(ctx, a, b); break; case K_SUB: r = ZK_bvsub(ctx, a, b); break;
    case K_MUL: r = ZK_bvmul(ctx, a, b); break; case K_UDIV: r = ZK_bvudiv(ctx, a, b); break;
    case K_SDIV: r = ZK_bvsdiv(ctx, a, b); break; case K_UREM: r = ZK_bvurem(ctx, a, b); break;
    case K_SREM: r = ZK_bvsrem(ctx, a, b); break; case K_AND: r = ZK_bvand(ctx, a, b); break;
    case K_OR: r = ZK_bvor(ctx, a, b); break; case K_XOR: r = ZK_bvxor(ctx, a, b); break;
    case K_SHL: r = ZK_bvshl(ctx, a, b); break; case K_LSHR: r = ZK_bvlshr(ctx, a, b); break;
    case K_ASHR: r = ZK_bvashr(ctx, a, b); break;
    default: abort();
    } }
  }
  Z3_inc_ref(ctx, r);
  return e->z = r;
}
static Z3_ast toB(Expr *e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  switch (e->k) {
  case K_CONST: r = e->c ? ZK_true(ctx) : ZK_false(ctx); break;
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: {
    Expr *a = e->o[0], *b = e->o[1];
    if (e->k == K_EQ && a->w == 1) { r = ZK_iff(ctx, toB(a), toB(b)); break; }
    bool sg = e->k == K_SLT || e->k == K_SLE; uint64_t H = maskw(a->w) >> 1;
    if (a->w > 64 || (sg && (a->hi > H || b->hi > H))) {
      Z3_ast x = toBV(a), y = toBV(b);
      r = e->k == K_EQ ? ZK_eq(ctx, x, y) : e->k == K_ULT ? ZK_bvult(ctx, x, y) : e->k == K_ULE ? ZK_bvule(ctx, x, y) : e->k == K_SLT ? ZK_bvslt(ctx, x, y) : ZK_bvsle(ctx, x, y);
      break;
    }
    unsigned w = std::max(nw(a), nw(b)); Z3_ast x = fit(a, w), y = fit(b, w);
    r = e->k == K_EQ ? ZK_eq(ctx, x, y) : (e->k == K_ULT || e->k == K_SLT) ? ZK_bvult(ctx, x, y) : ZK_bvule(ctx, x, y);
    break; }
  case K_NOT: r = ZK_not(ctx, toB(e->o[0])); break;
  case K_AND: { Z3_ast x[2] = {toB(e->o[0]), toB(e->o[1])}; r = ZK_and(ctx, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {toB(e->o[0]), toB(e->o[1])}; r = ZK_or(ctx, 2, x); break; }
  case K_XOR: r = ZK_xor(ctx, toB(e->o[0]), toB(e->o[1])); break;
  case K_ITE: r = ZK_ite(ctx, toB(e->o[0]), toB(e->o[1]), toB(e->o[2])); break;
  default: r = ZK_eq(ctx, toBV(e), ZK_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
  }
  Z3_inc_ref(ctx, r);
  return e->zb = r;
}
static unsigned g_rlimit; static unsigned asserted = 0;
static std::unordered_map<uint32_t, Z3_ast> lits; // expr id -> indicator literal
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void newSolver() {
  if (solver) Z3_solver_dec_ref(ctx, solver);
  solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, solver);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  if (g_rlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), g_rlimit);
  Z3_solver_set_params(ctx, solver, p); Z3_params_dec_ref(ctx, p);
  lits.clear(); asserted = 0;
}
void solverInit(unsigned rlimit) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg); Z3_set_error_handler(ctx, errh);
  g_rlimit = rlimit;
  newSolver();
}
static Z3_ast litFor(Expr *e) {
  auto it = lits.find(e->id); if (it != lits.end()) return it->second;
  std::string n = "p" + std::to_string(e->id);
  Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
  Z3_inc_ref(ctx, p);
  Z3_solver_assert(ctx, solver, Z3_mk_implies(ctx, p, toB(e)));
  asserted++;
  lits[e->id] = p;
  return p;
}
struct CacheEnt { int res; std::vector<std::pair<uint32_t, uint64_t>> vals; };
struct KeyHash { size_t operator()(const std::vector<uint32_t> &k) const { uint64_t h = 17; for (auto x : k) h = h * 0x9E3779B97F4A7C15ull + x; return hmix(h); } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> qcache;

double g_solverDeadline; // absolute, CLOCK_MONOTONIC seconds: no query runs past it (and none takes longer than QUERY_MAX seconds)
static const double QUERY_MAX = 120;
static int g_alarms;
static void onAlarm(int) { if (++g_alarms > 40) _exit(4); Z3_interrupt(ctx); } // a query that cannot be interrupted ends this worker; its paths count as not explored
static void armQuery() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double left = QUERY_MAX, n = t.tv_sec + t.tv_nsec * 1e-9;
  if (g_solverDeadline && g_solverDeadline - n < left) left = g_solverDeadline - n;
  if (left < 0.2) left = 0.2;
  g_alarms = 0; struct sigaction sa{}; sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  itimerval v{}; v.it_value.tv_sec = (long)left; v.it_value.tv_usec = (long)((left - (long)left) * 1e6); v.it_interval.tv_usec = 500000; setitimer(ITIMER_REAL, &v, nullptr);
}

int solverCheck(const std::vector<Expr *> &conj, std::vector<uint64_t> &model) {
  std::vector<uint32_t> key; key.reserve(conj.size());
  for (Expr *e : conj) { if (e->k == K_CONST) { if (!e->c) return 0; continue; } key.push_back(e->id); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    g_ss.cacheHits++;
    if (it->second.res == 1) for (auto &p : it->second.vals) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
    return it->second.res;
  }
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  if (asserted > 400) newSolver();
  const VarSet *vs = emptyVS();
  std::vector<Z3_ast> as; std::set<uint32_t> seen;
  for (Expr *e : conj) if (e->k != K_CONST && seen.insert(e->id).second) { as.push_back(toB(e)); vs = unionVS(vs, e->vs); }
  // ranges of the variables are part of the claim
  noCanon = true;
  for (uint32_t v : vs->v) {
    VarInfo &vi = g_vars[v];
    if (vi.lo > 0) { Expr *c = mk(K_ULE, 1, 0, mkConst(vi.lo, vi.w), vi.e); as.push_back(toB(c)); }
    if (vi.hi < maskw(vi.w)) { Expr *c = mk(K_ULE, 1, 0, vi.e, mkConst(vi.hi, vi.w)); as.push_back(toB(c)); }
  }
  noCanon = false;
  newSolver(); for (Z3_ast x : as) Z3_solver_assert(ctx, solver, x);
  armQuery();
  Z3_lbool r = Z3_solver_check(ctx, solver);
  { itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); }
  CacheEnt ce;
  if (r == Z3_L_TRUE) {
    ce.res = 1; g_ss.sat++;
    Z3_model m = Z3_solver_get_model(ctx, solver); Z3_model_inc_ref(ctx, m);
    for (uint32_t v : vs->v) {
      Z3_ast o; uint64_t val = g_vars[v].lo;
      if (Z3_model_eval(ctx, m, toBV(g_vars[v].e), true, &o)) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, &val); Z3_dec_ref(ctx, o); }
      ce.vals.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, m);
  } else if (r == Z3_L_FALSE) { ce.res = 0; g_ss.unsat++; }
  else { ce.res = -1; g_ss.unknown++; }
  g_ss.queries++;
  clock_gettime(CLOCK_MONOTONIC, &t1);
  uint64_t ns = (t1.tv_sec - t0.tv_sec) * 1000000000ull + t1.tv_nsec - t0.tv_nsec;
  g_ss.ns += ns; if (ns > g_ss.maxns) g_ss.maxns = ns;
  static const char *slow = getenv("SX_SLOW");
  if (slow && ns > strtoull(slow, nullptr, 10) * 1000000ull) { fprintf(stderr, "slow query %llu ms, %zu conjuncts, result %d, asserted %u\n", (unsigned long long)(ns / 1000000), conj.size(), ce.res, asserted); for (Expr *e : conj) fprintf(stderr, "   %s\n", exprStr(e, 12).c_str()); }
  if (ce.res == 1) for (auto &p : ce.vals) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  if (qcache.size() > 2000000) qcache.clear();
  int res = ce.res;
  qcache.emplace(std::move(key), std::move(ce));
  return res;
}
// ---------------------------------------------------------------------------------------------------------------
// Difference constraints.  Conjunctions whose atoms compare variables with each other or with constants (the only
// conditions comparison-based code produces) are decided by negative-cycle detection instead of bit-blasting.  With
// confirm set, every refutation is re-established by the SMT solver from the literals of the negative cycle.
namespace {
typedef __int128 i128;
struct DEdge { int x, y; i128 w; Expr *lit; };      // val[x] - val[y] <= w
struct DNeq { int x, y; i128 c; Expr *lit; };       // val[x] - val[y] != c
struct DProb {
  std::vector<DEdge> es; std::vector<DNeq> ns; std::vector<uint32_t> vars; // node i+1 is vars[i]
  int node(uint32_t v) { for (size_t i = 0; i < vars.size(); i++) if (vars[i] == v) return (int)i + 1; vars.push_back(v); VarInfo &vi = g_vars[v]; int n = (int)vars.size();
    es.push_back({n, 0, (i128)vi.hi, nullptr}); es.push_back({0, n, -(i128)vi.lo, nullptr}); return n; }
};
struct DOrder {
  int budget = 400; bool confirm = false; std::vector<i128> val; DProb *sol = nullptr;
  static bool operand(DProb &p, Expr *e, int &n, i128 &c) {
    while (e->k == K_ZEXT) e = e->o[0];
    if (e->w > 64) return false;
    if (e->k == K_CONST) { n = 0; c = e->c; return true; }
    if (e->k == K_VAR) { n = p.node((uint32_t)e->c); c = 0; return true; }
    return false;
  }
  // adds literal (e xor neg); returns 1 added, 0 not a literal of this theory, 2 boolean structure
  static int literal(DProb &p, Expr *e, bool neg) {
    Expr *lit = neg ? mkNot(e) : e; int a, b; i128 ca, cb;
    switch (e->k) {
    case K_VAR: a = p.node((uint32_t)e->c); if (neg) p.es.push_back({a, 0, 0, lit}); else p.es.push_back({0, a, -1, lit}); return 1;
    case K_ULT: case K_ULE: case K_EQ: {
      if (e->o[0]->w == 1 && e->k == K_EQ && (e->o[0]->k != K_VAR || e->o[1]->k != K_VAR)) return 0;
      if (!operand(p, e->o[0], a, ca) || !operand(p, e->o[1], b, cb)) return 0;
      // (a+ca) op (b+cb)
      if (e->k == K_EQ) { if (neg) p.ns.push_back({a, b, cb - ca, lit}); else { p.es.push_back({a, b, cb - ca, lit}); p.es.push_back({b, a, ca - cb, lit}); } return 1; }
      int st = e->k == K_ULT; if (!neg) p.es.push_back({a, b, cb - ca - st, lit}); else p.es.push_back({b, a, ca - cb - (1 - st), lit}); return 1; }
    case K_AND: case K_OR: case K_ITE: case K_XOR: return e->w == 1 ? 2 : 0;
    default: return 0;
    }
  }
  int refuted(const std::vector<Expr *> &core, DProb &p) {
    if (!confirm) return 0;
    std::map<uint32_t, Expr *> sub; unsigned slot = 0; std::vector<Expr *> c;
    for (Expr *e : core) for (uint32_t v : e->vs->v) if (!sub.count(v)) { VarInfo vi = g_vars[v]; char key[96]; snprintf(key, sizeof key, "b%u:%u:%llu:%llu", slot++, vi.w, (unsigned long long)vi.lo, (unsigned long long)vi.hi); sub[v] = mkVar(key, vi.name, vi.w, vi.lo, vi.hi); }
    for (Expr *e : core) c.push_back(substExpr(e, sub));
    std::vector<uint64_t> m; return solverCheck(c, m) == 0 ? 0 : -1;
  }
  int leaf(DProb &p, std::vector<Expr *> *outCore) { // 1 sat, 0 unsat, -1 unknown
    if (--budget < 0) return -1;
    size_t n = p.vars.size() + 1; std::vector<i128> d(n, 0); std::vector<int> par(n, -1); int last = -1;
    for (size_t it = 0; it <= n; it++) { last = -1; for (size_t k = 0; k < p.es.size(); k++) { DEdge &e = p.es[k]; if (d[e.y] + e.w < d[e.x]) { d[e.x] = d[e.y] + e.w; par[e.x] = (int)k; last = e.x; } } if (last < 0) break; }
    if (last >= 0) {
      for (size_t i = 0; i < n; i++) last = p.es[par[last]].y;
      std::vector<Expr *> core; int at = last; do { DEdge &e = p.es[par[at]]; if (e.lit) core.push_back(e.lit); at = e.y; } while (at != last);
      if (outCore) { outCore->insert(outCore->end(), core.begin(), core.end()); return 0; }
      return refuted(core, p);
    }
    for (auto &q : p.ns) if (d[q.x] - d[q.y] == q.c) {
      std::vector<Expr *> core; core.push_back(q.lit); DNeq nq = q;
      DProb l = p; l.es.push_back({nq.x, nq.y, nq.c - 1, nullptr}); int r = leaf(l, &core); if (r) return r;
      DProb h = p; h.es.push_back({nq.y, nq.x, -nq.c - 1, nullptr}); r = leaf(h, &core); if (r) return r;
      if (outCore) { outCore->insert(outCore->end(), core.begin(), core.end()); return 0; }
      return refuted(core, p);
    }
    val.assign(n, 0); for (size_t i = 0; i < n; i++) val[i] = d[i] - d[0]; static DProb keepSol; keepSol = p; sol = &keepSol; return 1;
  }
  int solve(DProb p, std::vector<std::pair<Expr *, bool>> todo) {
    while (!todo.empty()) {
      auto [e, neg] = todo.back(); todo.pop_back();
      if (e->k == K_CONST) { if (!!e->c == neg) return 0; continue; }
      if (e->k == K_NOT) { todo.push_back({e->o[0], !neg}); continue; }
      int l = literal(p, e, neg);
      if (l == 0) return -1;
      if (l == 1) continue;
      if (--budget < 0) return -1;
      if (e->k == K_ITE || e->k == K_XOR) {
        for (int side = 0; side < 2; side++) { auto t = todo; t.push_back({e->o[0], side == 1}); if (e->k == K_ITE) t.push_back({e->o[side ? 2 : 1], neg}); else t.push_back({e->o[1], (side == 0) != neg}); int r = solve(p, t); if (r) return r; }
        return 0;
      }
      bool conj = (e->k == K_AND) != neg;
      if (conj) { todo.insert(todo.begin(), {e->o[0], neg}); todo.insert(todo.begin(), {e->o[1], neg}); continue; }
      for (int i = 0; i < 2; i++) { auto t = todo; t.push_back({e->o[i], neg}); int r = solve(p, t); if (r) return r; }
      return 0;
    }
    return leaf(p, nullptr);
  }
};
}
int orderCheck(const std::vector<Expr *> &conj, std::vector<uint64_t> &model, bool confirm) {
  DOrder o; o.confirm = confirm; std::vector<std::pair<Expr *, bool>> todo;
  for (size_t i = conj.size(); i-- > 0;) todo.push_back({conj[i], false});
  int r = o.solve(DProb(), todo);
  if (r == 1) {
    for (size_t i = 0; i < o.sol->vars.size(); i++) { uint32_t v = o.sol->vars[i]; if (model.size() <= v) model.resize(g_vars.size(), 0); model[v] = (uint64_t)o.val[i + 1]; }
    for (Expr *e : conj) for (uint32_t v : e->vs->v) if (model.size() <= v) model.resize(g_vars.size(), 0);
    for (Expr *e : conj) if (!(evalExpr(e, model) & 1)) return -1;
  }
  if (r >= 0) g_ss.order++;
  return r;
}
