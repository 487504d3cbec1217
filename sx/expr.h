// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <vector>
#include <string>
#include <z3.h>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT,
  K_ZEXT, K_SEXT, K_ITE, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_FDY, // the double (o0 - o1) * 2^-c, exact: o0 an unsigned 64 bit expression, o1 a constant
  K_FQ   // the double nearest to o0 / o1, times 2^-c: o1 a constant, o0 below 2^52
};

struct VarSet { std::vector<uint32_t> v; mutable uint32_t id = 0; };

struct alignas(8) Expr {
  Kind k; uint8_t dead; uint16_t w;
  uint32_t id;
  uint64_t c;            // const value / extract offset / var index
  Expr *o[3];
  uint64_t lo, hi;       // unsigned range (w<=64)
  const VarSet *vs;
  Z3_ast z;              // cached translation (bit-vector sort)
  Z3_ast zb;             // cached translation (bool sort, w==1)
  uint64_t ev; uint32_t ep; uint32_t hash;
  Expr *canon;           // canonical form of a predicate over one small-domain variable
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; uint64_t lo, hi; Expr *e; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_numExprs;

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(const std::string &key, const std::string &name, unsigned w, uint64_t lo, uint64_t hi);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
// exact reasoning about doubles computed from bounded integers; nullptr: not in the fragment
Expr *fpFromUInt(Expr *n);               // 64 bit, at most 2^53
Expr *fpFromSInt(Expr *x, unsigned w);   // w <= 32
enum FpOp { FP_ADD, FP_SUB, FP_MUL, FP_DIV };
Expr *fpBin(FpOp op, Expr *a, Expr *b);
Expr *fpNeg(Expr *a);
Expr *fpCmp(int rel, Expr *a, Expr *b);  // rel: bit 0 less, bit 1 equal, bit 2 greater (both operands are numbers)
bool fpIs(Expr *e);                      // a symbolic double of the fragment
Expr *fpRound(Expr *a, int mode);        // 0 floor, 1 ceil, 2 trunc, 3 round half away from zero
Expr *fpKnownNonNeg(Expr *a);            // the same value, given that a >= 0
Expr *fpNonNeg(Expr *a);                 // 1-bit: a >= 0
Expr *fpToInt(Expr *a, bool nonneg);     // 64 bit two's complement, towards zero; the sign is given
std::string exprStr(Expr *e, int depth = 6);

static inline bool isConst(const Expr *e) { return e->k == K_CONST; }

// evaluation under an assignment (indexed by var id); w<=64 only at the top
extern uint32_t g_evalEpoch;
uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &model);

// solver
Expr *substExpr(Expr *e, const std::map<uint32_t, Expr *> &fixed);
struct SolverStats { uint64_t table = 0, order = 0, queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; uint64_t ns = 0, maxns = 0; };
extern SolverStats g_ss;
void solverInit(unsigned rlimit);
// is the conjunction satisfiable?  1 sat (values for every var in the conjuncts written to model), 0 unsat, -1 unknown
int solverCheck(const std::vector<Expr *> &conj, std::vector<uint64_t> &model);
// same contract, for conjunctions of difference constraints (-1: not in the fragment); confirm: refutations are re-established by the SMT solver
int orderCheck(const std::vector<Expr *> &conj, std::vector<uint64_t> &model, bool confirm);
Expr *findIte(Expr *e, int depth);
Expr *findCtlIte(Expr *e, int depth);
Expr *replaceNode(Expr *e, Expr *what, Expr *by);
