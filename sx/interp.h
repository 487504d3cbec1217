#pragma once
#include "state.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <atomic>
#include <unordered_map>

enum Op : uint16_t {
  OP_NOP, OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_FNEG, OP_CAST_ZEXT, OP_CAST_SEXT, OP_CAST_TRUNC, OP_MOV, OP_FPCAST,
  OP_GEPC, OP_GEP, OP_LOAD, OP_STORE, OP_ALLOCA, OP_BR, OP_CBR, OP_SWITCH, OP_RET, OP_CALL, OP_SELECT,
  OP_UNREACHABLE, OP_RESUME, OP_LPAD, OP_COPY, OP_ARMW, OP_CMPXCHG, OP_FENCE, OP_UNSUPPORTED,
  OP_OVF, OP_MINMAX, OP_ABS, OP_SAT, OP_CTLZ, OP_CTTZ, OP_CTPOP, OP_BSWAP, OP_FSH, OP_MEMCPY, OP_MEMSET, OP_ASSUME,
  OP_FUN1, OP_TLSADDR, OP_TYPEID, OP_VASTART, OP_BITREV, OP_TRAP
};
struct Ins { uint16_t op; uint16_t w; uint16_t sub; uint16_t n; int32_t dst, a, b, c; void *x; uint64_t imm; };
struct Edge { uint32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepX { std::vector<std::pair<int32_t, int64_t>> idx; std::vector<uint16_t> w; };
struct SwX { std::vector<uint64_t> vals; std::vector<Edge *> to; Edge *def; };
struct RetX { std::vector<int32_t> v; };
struct Interp;
typedef void (*Native)(Interp &, State &, const Ins &, std::vector<Val> &);
struct CallX {
  llvm::Function *fn = nullptr; FnInfo *fi = nullptr; Native nat = nullptr; int32_t callee = 0; bool indirect = false;
  std::vector<int32_t> args; std::vector<uint8_t> argw; std::vector<uint32_t> byval; // byval size per arg (0 none)
  uint32_t nret = 0; uint8_t retw = 0;
  Edge *normal = nullptr, *unwind = nullptr; uint32_t lpadPc = 0; bool invoke = false;
};
struct LpadX { bool cleanup = false; struct C { bool filter; std::vector<uint64_t> ti; }; std::vector<C> clauses; };
struct CopyX { std::vector<int32_t> src; };
struct FnInfo {
  llvm::Function *f; uint32_t index; bool decoded = false; Native nat = nullptr; bool external = false;
  uint32_t nslots = 0, nargs = 0; bool vararg = false;
  std::vector<Ins> code; std::vector<llvm::DILocation *> locs; std::vector<uint32_t> byval; // byval sizes by arg
  std::string name; bool isRt = false; // isRt: part of the runtime, not of the program
};

struct Shared {
  std::atomic<uint64_t> paths, completed, aborted, forks, instrs, queries, table, order, cacheHits, sat, unsat, unknown, ns, maxns, concretizations, incomplete, states, schedPoints, exprs;
  std::atomic<int> workers, stop, viol, timedout, memout, replaySeq;
  std::atomic<uint64_t> maxInstr, asserts, assertQueries, workersTotal;
  std::atomic<uint32_t> violHash[64]; std::atomic<int> suspects;
  std::atomic<uint64_t> cover[256]; char coverName[256][64]; std::atomic<int> ncover;
  std::atomic<uint64_t> unsup[64]; char unsupName[64][160]; std::atomic<int> nunsup;
  std::atomic<uint8_t> fnHit[65536];
};
struct Options {
  double deadline = 60; std::string out = "/tmp/sxout"; std::string jobserver; int maxWorkers = 8; unsigned rlimit = 0;
  int maxViol = 1; int samples = 0; bool verbose = false; uint64_t pathInstrLimit = 2000000000ull; uint64_t memMB = 3000; unsigned seed = 1; std::string replay; bool spurious = false;
};
struct PathEnd {}; // thrown to terminate the current path

struct Interp {
  llvm::Module *M; const llvm::DataLayout *DL; Options opt; Shared *sh;
  std::vector<Val> cp; std::unordered_map<const llvm::Constant *, int32_t> cpMap;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr; std::unordered_map<uint32_t, FnInfo *> fnById;
  std::unordered_map<const llvm::Function *, FnInfo *> fnInfo; std::vector<FnInfo *> fns;
  std::unordered_map<std::string, Native> natives;
  std::vector<State *> work;
  uint64_t siTI = 0, clsTI = 0, vmiTI = 0, ptrTI = 0;
  // hot pointers for the running state
  Frame *fr; Val *fp; bool running;

  void init(llvm::Module *m);
  void allocGlobals(State &s);
  void initConst(State &s, Obj *o, const llvm::Constant *c, uint64_t off);
  uint64_t constAddr(const llvm::Constant *c);
  Val constVal(const llvm::Constant *c);
  int32_t cref(const llvm::Constant *c);
  int32_t crefVal(uint64_t v);
  FnInfo *info(llvm::Function *f);
  void decode(FnInfo *fi);
  void regNatives();
  void runAll();
  void run(State &s);
  void step(State &s);
  void pushFrame(State &s, FnInfo *fi, const Ins *call, std::vector<Val> &args, const CallX *cx);
  void doRet(State &s, const std::vector<Val> &rv);
  void takeEdge(State &s, const Edge *e);
  void doCall(State &s, const Ins &in);
  void finishNative(State &s, const Ins &in, const Val *rv);
  void reload(State &s) { Thread &t = s.th[s.cur]; fr = &t.frames.back(); fp = t.stack.data() + fr->base; }
  inline Val &R(int32_t r) { return r >= 0 ? fp[r] : cp[~r]; }
  // symbolic helpers
  Expr *E(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val V(Expr *e) { Val v; if (e->k == K_CONST) { v.c = e->c; v.e = nullptr; } else { v.c = 0; v.e = e; } return v; }
  static Val C(uint64_t c) { Val v; v.c = c; v.e = nullptr; return v; }
  uint64_t conc(State &s, Val &v, unsigned w); // concretize, forking
  int check(State &s, Expr *extra, std::vector<uint64_t> &model, bool claim = false);
  void addCons(State &s, Expr *c);
  State *forkState(State &s);
  bool branch(State &s, Expr *c, State **other); // returns the side the current state takes
  void violation(State &s, const char *kind, const std::string &msg);
  void suspect(State &s, const std::string &why);
  void incomplete(State &s, const std::string &why);
  [[noreturn]] void endPath(State &s, bool ok);
  std::string where(State &s);
  void writeTrace(State &s, const std::string &path, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &model);
  // memory
  uint64_t alloc(State &s, uint64_t size, ObjKind k, uint8_t fill);
  void raceAccess(State &s, uint64_t addr, uint64_t n, bool write, bool atomic = false);
  void popFrame(State &s, Thread &t);
  Obj *resolve(State &s, uint64_t addr, uint64_t n, bool write, const char *what);
  Val load(State &s, uint64_t addr, unsigned w);
  void store(State &s, uint64_t addr, const Val &v, unsigned w);
  void splitAddr(State &s, Val &a); void splitCond(State &s, Val &a);
  Val loadSym(State &s, Val &a, unsigned w);
  void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n);
  void setMem(State &s, uint64_t d, const Val &v, uint64_t n);
  uint64_t load64(State &s, uint64_t a) { Val v = load(s, a, 64); return conc(s, v, 64); }
  uint64_t load32(State &s, uint64_t a) { Val v = load(s, a, 32); return conc(s, v, 32); }
  void store64(State &s, uint64_t a, uint64_t v) { store(s, a, C(v), 64); }
  void store32(State &s, uint64_t a, uint64_t v) { store(s, a, C(v), 32); }
  std::string cstr(State &s, uint64_t a);
  void freeObj(State &s, uint64_t addr);
  // exceptions
  void raise(State &s, uint64_t exc);
  bool tiMatch(State &s, uint64_t catchTI, uint64_t thrownTI, uint64_t obj, uint64_t &adj);
  // threads
  bool enabled(State &s, uint32_t t);
  bool sched(State &s); // scheduling point; returns true if the current thread continues with the instruction
  void blockCurrent(State &s); // current thread cannot continue: pick another
  void switchTo(State &s, uint32_t t);
  Val newSym(State &s, const char *name, unsigned w, uint64_t lo, uint64_t hi);
  void maybeSplit();
  bool takeToken(bool block); void putToken();
};
