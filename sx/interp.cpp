#include "interp.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Intrinsics.h>
#include <algorithm>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <cstdio>
#include <set>
#include <map>

using namespace llvm;
extern double g_solverDeadline;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double g_start;

// ---------------- constants and globals ----------------
static unsigned bitsOf(Interp &I, Type *t) { return t->isPointerTy() ? 64 : (unsigned)I.DL->getTypeSizeInBits(t); }
static void flatten(Interp &I, Type *t, std::vector<std::pair<unsigned, uint64_t>> &out, uint64_t off = 0) {
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = I.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flatten(I, st->getElementType(i), out, off + sl->getElementOffset(i));
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = I.DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(I, at->getElementType(), out, off + i * es);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = bitsOf(I, vt->getElementType()) / 8;
    for (uint64_t i = 0; i < vt->getNumElements(); i++) flatten(I, vt->getElementType(), out, off + i * es);
  } else if (t->isVoidTy()) {
  } else out.push_back({bitsOf(I, t), off});
}
static unsigned nslotsOf(Interp &I, Type *t) { std::vector<std::pair<unsigned, uint64_t>> o; flatten(I, t, o); return o.size(); }
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }

int32_t Interp::crefVal(uint64_t v) {
  static std::unordered_map<uint64_t, int32_t> m;
  auto it = m.find(v); if (it != m.end()) return it->second;
  cp.push_back(C(v)); return m[v] = ~(int32_t)(cp.size() - 1);
}
uint64_t Interp::constAddr(const Constant *c) {
  Val v = constVal(c); return v.c;
}
Val Interp::constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return C(ci->getZExtValue());
    APInt a = ci->getValue();
    Expr *e = mkConcat(mkConst(a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64), a.getBitWidth() - 64), mkConst(a.extractBitsAsZExtValue(64, 0), 64));
    Val v; v.c = 0; v.e = e; return v;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    unsigned w = bitsOf(*this, c->getType());
    if (w > 64) { Val v; v.c = 0; v.e = mkConst(0, w); return v; }
    return C(0);
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() > 64) { Val v; v.c = 0; v.e = mkConcat(mkConst(a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64), a.getBitWidth() - 64), mkConst(a.extractBitsAsZExtValue(64, 0), 64)); return v; }
    return C(a.getZExtValue());
  }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv); if (it == gaddr.end()) { errs() << "no address for " << gv->getName() << "\n"; abort(); }
    return C(it->second);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *g = cast<GEPOperator>(ce);
      if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const " << *c << "\n"; abort(); }
      return C(constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
      Val v = constVal(ce->getOperand(0)); v.c &= maskw(bitsOf(*this, ce->getType())); return v; }
    case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= maskw(bitsOf(*this, ce->getType())); return v; }
    case Instruction::ZExt: return constVal(ce->getOperand(0));
    case Instruction::Add: return C((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(bitsOf(*this, ce->getType())));
    case Instruction::Sub: return C((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(bitsOf(*this, ce->getType())));
    case Instruction::ICmp: { // only eq/ne on addresses
      uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
      auto p = ce->getPredicate();
      if (p == CmpInst::ICMP_EQ) return C(a == b); if (p == CmpInst::ICMP_NE) return C(a != b);
      break; }
    default: break;
    }
    errs() << "constexpr " << *c << "\n"; abort();
  }
  errs() << "const " << *c << "\n"; abort();
}
int32_t Interp::cref(const Constant *c) {
  auto it = cpMap.find(c); if (it != cpMap.end()) return it->second;
  Val v = constVal(c);
  int32_t r;
  if (!v.e) r = crefVal(v.c); else { cp.push_back(v); r = ~(int32_t)(cp.size() - 1); }
  cpMap[c] = r; return r;
}
void Interp::initConst(State &s, Obj *o, const Constant *c, uint64_t off) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(s, o, cs->getOperand(i), off + sl->getElementOffset(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(s, o, cast<Constant>(c->getOperand(i)), off + i * es);
    return;
  }
  auto put = [&](uint64_t v, unsigned bytes, uint64_t at) {
    for (unsigned i = 0; i < bytes; i++) { uint64_t p = at + i; o->wpage(p / PS)->b[p % PS] = v >> (8 * i); } };
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) {
      uint64_t v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
      put(v, es, off + i * es);
    }
    return;
  }
  unsigned w = bitsOf(*this, t);
  if (w > 64) { Val v = constVal(c); std::vector<uint64_t> m; for (unsigned i = 0; i < w; i += 64) { unsigned n = std::min(64u, w - i); put(evalExpr(mkExtract(v.e, i, n), m), (n + 7) / 8, off + i / 8); } return; }
  put(constVal(c).c, (w + 7) / 8, off);
}
void Interp::allocGlobals(State &s) {
  for (Function &f : *M) {
    Obj *o = Obj::make(1, OK_FN, 0); o->ro = 1;
    uint32_t id = s.mem.add(o); gaddr[&f] = (uint64_t)id << 32;
    auto *fi = new FnInfo; fi->f = &f; fi->index = fns.size(); fi->name = f.getName().str(); fns.push_back(fi);
    if (auto *sp = f.getSubprogram()) { std::string fn = sp->getFilename().str(); auto ends = [&](const char *e) { size_t k = strlen(e); return fn.size() >= k && !fn.compare(fn.size() - k, k, e); }; fi->isRt = (ends("rt/rt.cpp") || ends("zstub.inc")) && fi->name.find("_M_start_thread") == std::string::npos && fi->name != "pthread_once" && fi->name != "sx_start" && fi->name != "main"; }
    fi->external = f.isDeclaration();
    fnInfo[&f] = fi; fnById[id] = fi;
    auto it = natives.find(fi->name); if (it != natives.end()) fi->nat = it->second;
  }
  std::vector<GlobalVariable *> gs;
  for (GlobalVariable &g : M->globals()) {
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    if (g.isDeclaration() && sz < 64) sz = 64;
    Obj *o = Obj::make(sz, OK_GLOBAL, 0); o->name = g.getName().data();
    uint32_t id = s.mem.add(o); gaddr[&g] = (uint64_t)id << 32;
    gs.push_back(&g);
    StringRef n = g.getName();
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") siTI = gaddr[&g] + 16;
    if (n == "_ZTVN10__cxxabiv117__class_type_infoE") clsTI = gaddr[&g] + 16;
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiTI = gaddr[&g] + 16;
    if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") ptrTI = gaddr[&g] + 16;
  }
  for (auto *g : gs) if (g->hasInitializer()) {
    Obj *o = s.mem.lookup(gaddr[g] >> 32);
    initConst(s, o, g->getInitializer(), 0);
    if (g->isConstant()) o->ro = 1;
  }
}
FnInfo *Interp::info(Function *f) { return fnInfo[f]; }

// ---------------- decoding ----------------
static Kind binKind(unsigned op) {
  switch (op) {
  case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL;
  case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM;
  case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
  case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
  default: abort();
  }
}
void Interp::decode(FnInfo *fi) {
  Function *f = fi->f; fi->decoded = true;
  std::unordered_map<const Value *, int32_t> slot; uint32_t ns = 0;
  for (Argument &a : f->args()) {
    slot[&a] = ns; ns += nslotsOf(*this, a.getType());
    fi->byval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0);
  }
  fi->nargs = ns; fi->vararg = f->isVarArg();
  for (BasicBlock &b : *f) for (Instruction &i : b) { slot[&i] = ns; ns += nslotsOf(*this, i.getType()); }
  fi->nslots = ns;
  std::function<void(const Value *, std::vector<int32_t> &)> refs = [&](const Value *v, std::vector<int32_t> &out) {
    if (auto *c = dyn_cast<Constant>(v)) {
      if (isAgg(c->getType())) {
        unsigned n = 0; Type *t = c->getType();
        n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) refs(c->getAggregateElement(i), out);
      } else out.push_back(cref(c));
      return;
    }
    auto it = slot.find(v);
    if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { out.push_back(crefVal(0)); return; } errs() << "no slot " << *v << "\n"; abort(); }
    unsigned n = nslotsOf(*this, v->getType());
    for (unsigned i = 0; i < n; i++) out.push_back(it->second + i);
  };
  auto ref = [&](const Value *v) -> int32_t { std::vector<int32_t> o; refs(v, o); if (o.size() != 1) { errs() << "aggregate operand " << *v << "\n"; return crefVal(0); } return o[0]; };
  std::unordered_map<const BasicBlock *, uint32_t> bpc;
  std::vector<std::pair<Edge *, const BasicBlock *>> fix;
  auto edge = [&](BasicBlock *from, BasicBlock *to) {
    Edge *e = new Edge; fix.push_back({e, to});
    for (PHINode &p : to->phis()) {
      std::vector<int32_t> src; refs(p.getIncomingValueForBlock(from), src);
      for (unsigned i = 0; i < src.size(); i++) e->copies.push_back({slot[&p] + (int)i, src[i]});
    }
    return e;
  };
  for (BasicBlock &b : *f) {
    bpc[&b] = fi->code.size();
    for (Instruction &i : b) {
      if (isa<PHINode>(i)) continue;
      Ins in; memset(&in, 0, sizeof in); in.dst = slot[&i];
      Type *ty = i.getType();
      if (!ty->isVoidTy() && !isAgg(ty) && ty->isSized()) in.w = bitsOf(*this, ty);
      auto emit = [&]() { fi->code.push_back(in); fi->locs.push_back(i.getDebugLoc().get()); };
      switch (i.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        in.op = OP_BIN; in.sub = binKind(i.getOpcode());
        if (isAgg(ty)) { // vectors element-wise
          std::vector<int32_t> A, B; refs(i.getOperand(0), A); refs(i.getOperand(1), B);
          in.w = bitsOf(*this, cast<VectorType>(ty)->getElementType());
          for (unsigned k = 0; k < A.size(); k++) { in.dst = slot[&i] + k; in.a = A[k]; in.b = B[k]; emit(); }
        } else { in.a = ref(i.getOperand(0)); in.b = ref(i.getOperand(1)); emit(); }
        break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        in.op = OP_FBIN; in.sub = i.getOpcode(); in.a = ref(i.getOperand(0)); in.b = ref(i.getOperand(1));
        if (isAgg(ty)) in.op = OP_UNSUPPORTED;
        emit(); break;
      case Instruction::FNeg: in.op = OP_FNEG; in.a = ref(i.getOperand(0)); emit(); break;
      case Instruction::ICmp: {
        auto &c = cast<ICmpInst>(i); in.op = OP_ICMP; in.sub = c.getPredicate();
        if (isAgg(c.getOperand(0)->getType())) {
          std::vector<int32_t> A, B; refs(i.getOperand(0), A); refs(i.getOperand(1), B);
          in.w = bitsOf(*this, cast<VectorType>(c.getOperand(0)->getType())->getElementType());
          for (unsigned k = 0; k < A.size(); k++) { in.dst = slot[&i] + k; in.a = A[k]; in.b = B[k]; emit(); }
          break;
        }
        in.w = bitsOf(*this, c.getOperand(0)->getType()); in.a = ref(c.getOperand(0)); in.b = ref(c.getOperand(1)); emit(); break; }
      case Instruction::FCmp: { auto &c = cast<FCmpInst>(i); in.op = OP_FCMP; in.sub = c.getPredicate(); in.w = bitsOf(*this, c.getOperand(0)->getType()); in.a = ref(c.getOperand(0)); in.b = ref(c.getOperand(1)); emit(); break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        in.op = i.getOpcode() == Instruction::ZExt ? OP_CAST_ZEXT : i.getOpcode() == Instruction::SExt ? OP_CAST_SEXT : OP_CAST_TRUNC;
        Type *st = i.getOperand(0)->getType();
        if (isAgg(ty)) {
          std::vector<int32_t> A; refs(i.getOperand(0), A);
          in.w = bitsOf(*this, cast<VectorType>(ty)->getElementType()); in.sub = bitsOf(*this, cast<VectorType>(st)->getElementType());
          for (unsigned k = 0; k < A.size(); k++) { in.dst = slot[&i] + k; in.a = A[k]; emit(); }
          break;
        }
        in.sub = bitsOf(*this, st); in.a = ref(i.getOperand(0)); emit(); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned sw = bitsOf(*this, i.getOperand(0)->getType());
        in.a = ref(i.getOperand(0)); in.sub = sw;
        in.op = sw == in.w ? OP_MOV : sw < in.w ? OP_CAST_ZEXT : OP_CAST_TRUNC; emit(); break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        std::vector<int32_t> A; refs(i.getOperand(0), A);
        if (A.size() != nslotsOf(*this, ty)) { in.op = OP_UNSUPPORTED; emit(); break; }
        in.op = OP_MOV;
        for (unsigned k = 0; k < A.size(); k++) { in.dst = slot[&i] + k; in.a = A[k]; emit(); }
        break; }
      case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
        in.op = OP_FPCAST; in.sub = i.getOpcode(); in.a = ref(i.getOperand(0)); in.n = bitsOf(*this, i.getOperand(0)->getType());
        if (isAgg(ty)) in.op = OP_UNSUPPORTED;
        emit(); break;
      case Instruction::GetElementPtr: {
        if (isAgg(ty)) { in.op = OP_UNSUPPORTED; emit(); break; }
        auto &g = cast<GetElementPtrInst>(i); int64_t off = 0; auto *gx = new GepX;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t)es;
            else { gx->idx.push_back({ref(ix), (int64_t)es}); gx->w.push_back(bitsOf(*this, ix->getType())); }
          }
        }
        in.a = ref(g.getPointerOperand()); in.imm = off; in.w = 64;
        if (gx->idx.empty()) { in.op = OP_GEPC; delete gx; } else { in.op = OP_GEP; in.x = gx; }
        emit(); break; }
      case Instruction::Load: {
        auto &l = cast<LoadInst>(i);
        std::vector<std::pair<unsigned, uint64_t>> fl; flatten(*this, ty, fl);
        in.op = OP_LOAD; in.a = ref(l.getPointerOperand()); in.sub = l.isAtomic();
        for (unsigned k = 0; k < fl.size(); k++) { in.dst = slot[&i] + k; in.w = fl[k].first; in.imm = fl[k].second; in.n = k; emit(); }
        break; }
      case Instruction::Store: {
        auto &st = cast<StoreInst>(i);
        std::vector<std::pair<unsigned, uint64_t>> fl; flatten(*this, st.getValueOperand()->getType(), fl);
        std::vector<int32_t> A; refs(st.getValueOperand(), A);
        in.op = OP_STORE; in.a = ref(st.getPointerOperand()); in.sub = st.isAtomic();
        for (unsigned k = 0; k < fl.size(); k++) { in.b = A[k]; in.w = fl[k].first; in.imm = fl[k].second; in.n = k; emit(); }
        break; }
      case Instruction::Alloca: {
        auto &a = cast<AllocaInst>(i); in.op = OP_ALLOCA; in.imm = DL->getTypeAllocSize(a.getAllocatedType()); in.a = ref(a.getArraySize()); in.n = bitsOf(*this, a.getArraySize()->getType()); emit(); break; }
      case Instruction::Br: {
        auto &br = cast<BranchInst>(i);
        if (br.isUnconditional()) { in.op = OP_BR; in.x = edge(&b, br.getSuccessor(0)); emit(); }
        else { in.op = OP_CBR; in.a = ref(br.getCondition()); Edge **p = new Edge *[2]; p[0] = edge(&b, br.getSuccessor(0)); p[1] = edge(&b, br.getSuccessor(1)); in.x = p; emit(); }
        break; }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(i); in.op = OP_SWITCH; in.a = ref(sw.getCondition()); in.w = bitsOf(*this, sw.getCondition()->getType());
        auto *x = new SwX; x->def = edge(&b, sw.getDefaultDest());
        std::map<BasicBlock *, Edge *> em;
        for (auto &c : sw.cases()) { x->vals.push_back(c.getCaseValue()->getZExtValue()); Edge *&e = em[c.getCaseSuccessor()]; if (!e) e = edge(&b, c.getCaseSuccessor()); x->to.push_back(e); }
        in.x = x; emit(); break; }
      case Instruction::Ret: { auto &r = cast<ReturnInst>(i); in.op = OP_RET; auto *x = new RetX; if (r.getReturnValue()) refs(r.getReturnValue(), x->v); in.x = x; emit(); break; }
      case Instruction::Unreachable: in.op = OP_UNREACHABLE; emit(); break;
      case Instruction::Resume: { std::vector<int32_t> A; refs(i.getOperand(0), A); in.op = OP_RESUME; in.a = A[0]; emit(); break; }
      case Instruction::LandingPad: {
        auto &lp = cast<LandingPadInst>(i); auto *x = new LpadX; x->cleanup = lp.isCleanup();
        for (unsigned k = 0; k < lp.getNumClauses(); k++) {
          LpadX::C c; c.filter = lp.isFilter(k);
          if (!c.filter) c.ti.push_back(constAddr(cast<Constant>(lp.getClause(k))));
          else { auto *ca = lp.getClause(k); for (unsigned q = 0; q < ca->getNumOperands(); q++) c.ti.push_back(constAddr(cast<Constant>(ca->getOperand(q)))); }
          x->clauses.push_back(c);
        }
        in.op = OP_LPAD; in.x = x; emit(); break; }
      case Instruction::Select: {
        std::vector<int32_t> A, B; refs(i.getOperand(1), A); refs(i.getOperand(2), B);
        in.op = OP_SELECT;
        std::vector<std::pair<unsigned, uint64_t>> fl; flatten(*this, ty, fl);
        if (isAgg(i.getOperand(0)->getType())) { in.op = OP_UNSUPPORTED; emit(); break; }
        in.a = ref(i.getOperand(0));
        for (unsigned k = 0; k < A.size(); k++) { in.dst = slot[&i] + k; in.b = A[k]; in.c = B[k]; in.w = fl[k].first; in.imm = ty->isPointerTy() ? 1 : ty->isDoubleTy() ? 2 : 0; emit(); }
        break; }
      case Instruction::ExtractValue: {
        auto &ev = cast<ExtractValueInst>(i); std::vector<int32_t> A; refs(ev.getAggregateOperand(), A);
        unsigned k = 0; Type *t = ev.getAggregateOperand()->getType();
        for (unsigned ix : ev.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += nslotsOf(*this, st->getElementType(q)); t = st->getElementType(ix); }
          else { auto *at = cast<ArrayType>(t); k += ix * nslotsOf(*this, at->getElementType()); t = at->getElementType(); }
        }
        unsigned n = nslotsOf(*this, t); in.op = OP_MOV;
        for (unsigned q = 0; q < n; q++) { in.dst = slot[&i] + q; in.a = A[k + q]; emit(); }
        break; }
      case Instruction::InsertValue: {
        auto &iv = cast<InsertValueInst>(i); std::vector<int32_t> A, B; refs(iv.getAggregateOperand(), A); refs(iv.getInsertedValueOperand(), B);
        unsigned k = 0; Type *t = iv.getAggregateOperand()->getType();
        for (unsigned ix : iv.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += nslotsOf(*this, st->getElementType(q)); t = st->getElementType(ix); }
          else { auto *at = cast<ArrayType>(t); k += ix * nslotsOf(*this, at->getElementType()); t = at->getElementType(); }
        }
        in.op = OP_MOV;
        for (unsigned q = 0; q < A.size(); q++) { in.dst = slot[&i] + q; in.a = (q >= k && q < k + B.size()) ? B[q - k] : A[q]; emit(); }
        break; }
      case Instruction::ExtractElement: {
        std::vector<int32_t> A; refs(i.getOperand(0), A);
        if (auto *ci = dyn_cast<ConstantInt>(i.getOperand(1))) { in.op = OP_MOV; in.a = A[ci->getZExtValue()]; emit(); }
        else { in.op = OP_UNSUPPORTED; emit(); }
        break; }
      case Instruction::InsertElement: {
        std::vector<int32_t> A; refs(i.getOperand(0), A);
        if (auto *ci = dyn_cast<ConstantInt>(i.getOperand(2))) {
          in.op = OP_MOV; for (unsigned q = 0; q < A.size(); q++) { in.dst = slot[&i] + q; in.a = q == ci->getZExtValue() ? ref(i.getOperand(1)) : A[q]; emit(); }
        } else { in.op = OP_UNSUPPORTED; emit(); }
        break; }
      case Instruction::ShuffleVector: {
        auto &sv = cast<ShuffleVectorInst>(i); std::vector<int32_t> A; refs(i.getOperand(0), A); refs(i.getOperand(1), A);
        in.op = OP_MOV; auto mask = sv.getShuffleMask();
        for (unsigned q = 0; q < mask.size(); q++) { in.dst = slot[&i] + q; in.a = mask[q] < 0 ? crefVal(0) : A[mask[q]]; emit(); }
        break; }
      case Instruction::AtomicRMW: { auto &a = cast<AtomicRMWInst>(i); in.op = OP_ARMW; in.sub = a.getOperation(); in.a = ref(a.getPointerOperand()); in.b = ref(a.getValOperand()); emit(); break; }
      case Instruction::AtomicCmpXchg: { auto &a = cast<AtomicCmpXchgInst>(i); in.op = OP_CMPXCHG; in.a = ref(a.getPointerOperand()); in.b = ref(a.getCompareOperand()); in.c = ref(a.getNewValOperand()); in.w = bitsOf(*this, a.getCompareOperand()->getType()); emit(); break; }
      case Instruction::Fence: in.op = OP_NOP; emit(); break;
      case Instruction::Call: case Instruction::Invoke: {
        auto &cb = cast<CallBase>(i);
        Function *cf = cb.getCalledFunction();
        if (!cf) if (auto *c = dyn_cast<Constant>(cb.getCalledOperand())) { auto *st = c->stripPointerCasts(); while (auto *al = dyn_cast<GlobalAlias>(st)) st = al->getAliasee()->stripPointerCasts(); cf = dyn_cast<Function>(const_cast<Constant *>(cast<Constant>(st))); }
        if (cf && cf->isIntrinsic()) {
          Intrinsic::ID id = cf->getIntrinsicID();
          auto A = [&](unsigned k) { return ref(cb.getArgOperand(k)); };
          bool simple = !isAgg(ty);
          bool skip = false;
          switch (id) {
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
          case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::assume: case Intrinsic::vaend: skip = true; break;
          case Intrinsic::stacksave: in.op = OP_MOV; in.a = crefVal(0); break;
          case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            in.op = OP_MOV; in.a = A(0); break;
          case Intrinsic::threadlocal_address: in.op = OP_TLSADDR; in.x = cb.getArgOperand(0); break;
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: in.op = OP_MEMCPY; in.sub = id == Intrinsic::memmove; in.a = A(0); in.b = A(1); in.c = A(2); in.n = bitsOf(*this, cb.getArgOperand(2)->getType()); break;
          case Intrinsic::memset: case Intrinsic::memset_inline: in.op = OP_MEMSET; in.a = A(0); in.b = A(1); in.c = A(2); in.n = bitsOf(*this, cb.getArgOperand(2)->getType()); break;
          case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
            in.op = OP_OVF; in.sub = id == Intrinsic::umul_with_overflow ? 0 : id == Intrinsic::smul_with_overflow ? 1 : id == Intrinsic::uadd_with_overflow ? 2 : id == Intrinsic::sadd_with_overflow ? 3 : id == Intrinsic::usub_with_overflow ? 4 : 5;
            in.a = A(0); in.b = A(1); in.w = bitsOf(*this, cb.getArgOperand(0)->getType()); simple = true; break;
          case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
            in.op = OP_MINMAX; in.sub = id == Intrinsic::umax ? 0 : id == Intrinsic::umin ? 1 : id == Intrinsic::smax ? 2 : 3; in.a = A(0); in.b = A(1); break;
          case Intrinsic::abs: in.op = OP_ABS; in.a = A(0); break;
          case Intrinsic::usub_sat: in.op = OP_SAT; in.sub = 0; in.a = A(0); in.b = A(1); break;
          case Intrinsic::uadd_sat: in.op = OP_SAT; in.sub = 1; in.a = A(0); in.b = A(1); break;
          case Intrinsic::ctlz: in.op = OP_CTLZ; in.a = A(0); break;
          case Intrinsic::cttz: in.op = OP_CTTZ; in.a = A(0); break;
          case Intrinsic::ctpop: in.op = OP_CTPOP; in.a = A(0); break;
          case Intrinsic::bswap: in.op = OP_BSWAP; in.a = A(0); break;
          case Intrinsic::bitreverse: in.op = OP_BITREV; in.a = A(0); break;
          case Intrinsic::fshl: case Intrinsic::fshr: in.op = OP_FSH; in.sub = id == Intrinsic::fshr; in.a = A(0); in.b = A(1); in.c = A(2); break;
          case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::pow: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::fmuladd: case Intrinsic::fma: case Intrinsic::powi: case Intrinsic::ldexp:
            in.op = OP_FUN1; in.imm = id; in.a = A(0); in.b = cb.arg_size() > 1 ? A(1) : crefVal(0); in.c = cb.arg_size() > 2 ? A(2) : crefVal(0); in.n = cb.arg_size(); break;
          case Intrinsic::eh_typeid_for: in.op = OP_TYPEID; in.imm = constAddr(cast<Constant>(cb.getArgOperand(0))); break;
          case Intrinsic::objectsize: in.op = OP_MOV; in.a = crefVal(cast<ConstantInt>(cb.getArgOperand(1))->isZero() ? ~0ull : 0); break;
          case Intrinsic::is_constant: in.op = OP_MOV; in.a = crefVal(0); break;
          case Intrinsic::vastart: in.op = OP_VASTART; in.a = A(0); break;
          case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: in.op = OP_TRAP; break;
          case Intrinsic::get_dynamic_area_offset: in.op = OP_MOV; in.a = crefVal(0); break;
          case Intrinsic::returnaddress: case Intrinsic::frameaddress: in.op = OP_MOV; in.a = crefVal(0); break;
          default: in.op = OP_UNSUPPORTED; in.x = (void *)cf; break;
          }
          if (skip) { if (auto *iv = dyn_cast<InvokeInst>(&i)) { in.op = OP_BR; in.x = edge(&b, iv->getNormalDest()); emit(); } break; }
          if (!simple && in.op != OP_UNSUPPORTED) { in.op = OP_UNSUPPORTED; in.x = (void *)cf; }
          emit();
          if (auto *iv = dyn_cast<InvokeInst>(&i)) { memset(&in, 0, sizeof in); in.op = OP_BR; in.x = edge(&b, iv->getNormalDest()); emit(); }
          break;
        }
        auto *x = new CallX;
        if (cb.isInlineAsm()) {
          // compiler barriers, pause, cpu relax: no effect on values
          if (ty->isVoidTy()) { if (auto *iv = dyn_cast<InvokeInst>(&i)) { in.op = OP_BR; in.x = edge(&b, iv->getNormalDest()); } else in.op = OP_NOP; }
          else in.op = OP_UNSUPPORTED;
          emit(); break;
        }
        in.op = OP_CALL; in.x = x;
        if (cf) { x->fn = cf; x->fi = info(cf); x->nat = x->fi->nat; }
        else { x->indirect = true; x->callee = ref(cb.getCalledOperand()); }
        for (unsigned k = 0; k < cb.arg_size(); k++) {
          std::vector<int32_t> A; refs(cb.getArgOperand(k), A);
          for (auto r : A) { x->args.push_back(r); x->byval.push_back(0); x->argw.push_back(isAgg(cb.getArgOperand(k)->getType()) ? 64 : std::min(255u, cb.getArgOperand(k)->getType()->isSized() ? bitsOf(*this, cb.getArgOperand(k)->getType()) : 0)); }
          if (cb.isByValArgument(k)) x->byval.back() = DL->getTypeAllocSize(cb.getParamByValType(k));
        }
        x->nret = nslotsOf(*this, ty); x->retw = (!ty->isVoidTy() && !isAgg(ty)) ? std::min(255u, bitsOf(*this, ty)) : 64;
        if (auto *iv = dyn_cast<InvokeInst>(&i)) { x->invoke = true; x->normal = edge(&b, iv->getNormalDest()); x->unwind = edge(&b, iv->getUnwindDest()); }
        emit(); break; }
      default: in.op = OP_UNSUPPORTED; emit(); break;
      }
    }
  }
  for (auto &p : fix) p.first->pc = bpc[p.second];
}

// ---------------- paths ----------------
std::string Interp::where(State &s) {
  std::string r; Thread &t = s.th[s.cur]; int n = 0;
  for (int i = (int)t.frames.size() - 1; i >= 0 && n < 24; i--, n++) {
    Frame &f = t.frames[i];
    DILocation *l = f.pc < f.fn->locs.size() ? f.fn->locs[f.pc] : nullptr;
    r += "    at "; r += f.fn->name;
    while (l) { r += " "; r += l->getFilename().str(); r += ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); if (l) r += " <-"; }
    r += "\n";
  }
  return r;
}
void Interp::writeTrace(State &s, const std::string &path, const std::string &kind, const std::string &msg, const std::vector<uint64_t> &model) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return;
  fprintf(f, "# %s: %s\n", kind.c_str(), msg.c_str());
  for (auto &t : s.trace) {
    if (t.kind == 0) fprintf(f, "sym %s %llu\n", t.name, (unsigned long long)(t.var < model.size() ? model[t.var] : g_vars[t.var].lo));
    else fprintf(f, "%s %llu\n", t.kind == 1 ? "pre" : "blk", (unsigned long long)t.val);
  }
  if (kind == "sample") {
    uint64_t h = 0xcbf29ce484222325ull;
    for (Expr *e : s.obsE) { uint64_t v = evalExpr(e, model); for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 0x100000001b3ull; } }
    fprintf(f, "obs %zu %llu\n", s.obsE.size(), (unsigned long long)h);
  }
  std::string w = where(s); size_t p = 0;
  while (p < w.size()) { size_t e = w.find('\n', p); fprintf(f, "#%s\n", w.substr(p, e - p).c_str()); p = e + 1; }
  fclose(f);
}
void Interp::violation(State &s, const char *kind, const std::string &msg) {
  // one report per (kind, message, innermost source position)
  std::string key = std::string(kind) + msg + where(s).substr(0, where(s).find('\n'));
  uint32_t h = std::hash<std::string>()(key); if (!h) h = 1;
  for (auto &x : sh->violHash) { uint32_t z = 0; if (x.load() == h) return; if (x.compare_exchange_strong(z, h)) break; if (z == h) return; }
  int n = sh->viol++;
  if (n < 20) {
    char buf[512]; snprintf(buf, sizeof buf, "%s/viol_%d.trace", opt.out.c_str(), n);
    writeTrace(s, buf, kind, msg, s.model);
  }
  fprintf(stderr, "VIOLATION %s: %s\n%s", kind, msg.c_str(), where(s).c_str());
  if (n + 1 >= opt.maxViol) sh->stop = 1;
}
// a path that could not be followed to its end: its inputs are replayed natively, and only what the real code does then counts
void Interp::suspect(State &s, const std::string &why) {
  uint32_t h = std::hash<std::string>()("suspect" + why + where(s).substr(0, where(s).find('\n'))); if (!h) h = 1;
  for (auto &x : sh->violHash) { uint32_t z = 0; if (x.load() == h) return; if (x.compare_exchange_strong(z, h)) break; if (z == h) return; }
  int n = sh->suspects++; if (n >= 8) return;
  char buf[512]; snprintf(buf, sizeof buf, "%s/suspect_%d.trace", opt.out.c_str(), n);
  writeTrace(s, buf, "suspect", why, s.model);
}
void Interp::incomplete(State &s, const std::string &why) {
  sh->incomplete++; suspect(s, why);
  for (int i = 0; i < 64; i++) {
    if (i >= sh->nunsup) { snprintf(sh->unsupName[i], 160, "%s", why.c_str()); sh->nunsup = i + 1; sh->unsup[i]++; if (opt.verbose || i < 3) fprintf(stderr, "INCOMPLETE: %s\n%s", why.c_str(), where(s).c_str()); break; }
    if (!strncmp(sh->unsupName[i], why.c_str(), 159)) { sh->unsup[i]++; break; }
  }
}
void Interp::endPath(State &s, bool ok) {
  if (ok) {
    sh->completed++;
    int n;
    if (opt.samples && (n = sh->replaySeq.load()) < opt.samples && (s.depth == 0 || (hash_value(s.instrs * 31 + s.depth) % 7) == 0 || sh->completed < 3)) {
      n = sh->replaySeq++;
      if (n < opt.samples) { char buf[512]; snprintf(buf, sizeof buf, "%s/sample_%d.trace", opt.out.c_str(), n); writeTrace(s, buf, "sample", "", s.model); }
    }
  } else sh->aborted++;
  throw PathEnd();
}
static const size_t TABMAX = 4096;
// one factor of a joint table: a group with its rows or an unconstrained variable with its domain
struct Factor { Group *g; uint32_t v; size_t n; };
static bool factors(State &s, Expr *e, std::vector<Factor> &fs) {
  size_t prod = 1; std::set<Group *> seen;
  for (uint32_t v : e->vs->v) {
    Group *g = s.groupOf(v); Factor f; f.g = g; f.v = v;
    if (g) { if (!seen.insert(g).second) continue; if (!g->hasTab) return false; f.n = g->rows(); }
    else { uint64_t d = g_vars[v].hi - g_vars[v].lo; if (d >= TABMAX) return false; f.n = d + 1; }
    prod *= f.n; if (prod > TABMAX) return false;
    fs.push_back(f);
  }
  return true;
}
template <class F> static bool forRows(const std::vector<Factor> &fs, std::vector<uint64_t> &m, const F &f) {
  for (auto &x : fs) { uint32_t mv = x.g ? x.g->vars.back() : x.v; if (m.size() <= mv) m.resize(g_vars.size(), 0); if (!x.n) return false; }
  std::vector<size_t> i(fs.size(), 0);
  auto set = [&](size_t k) { const Factor &x = fs[k]; if (x.g) { size_t nv = x.g->vars.size(); for (size_t j = 0; j < nv; j++) m[x.g->vars[j]] = x.g->tab[i[k] * nv + j]; } else m[x.v] = g_vars[x.v].lo + i[k]; };
  for (size_t k = 0; k < fs.size(); k++) set(k);
  for (;;) {
    if (f()) return true;
    size_t k = 0;
    for (; k < fs.size(); k++) { if (++i[k] < fs[k].n) { set(k); break; } i[k] = 0; set(k); }
    if (k == fs.size()) return false;
  }
}
int Interp::check(State &s, Expr *extra, std::vector<uint64_t> &model, bool claim) {
  std::vector<Factor> fs;
  if (!claim && factors(s, extra, fs)) { g_ss.table++; return forRows(fs, model, [&] { return evalExpr(extra, model) & 1; }) ? 1 : 0; }
  std::vector<Expr *> conj; conj.push_back(extra);
  { std::set<Group *> sg; for (uint32_t v : extra->vs->v) { Group *g = s.groupOf(v); if (g && sg.insert(g).second) conj.insert(conj.end(), g->cons.begin(), g->cons.end()); }
    std::vector<uint64_t> om = model; int r = orderCheck(conj, om, claim); if (r >= 0) { if (r == 1) model.swap(om); return r; } conj.resize(1); }
  std::set<Group *> seen; std::map<uint32_t, Expr *> sub; std::vector<std::pair<uint32_t, Expr *>> renamed; unsigned slot = 0;
  for (uint32_t v : extra->vs->v) { Group *g = s.groupOf(v); if (!g || !seen.insert(g).second) continue;
    conj.insert(conj.end(), g->cons.begin(), g->cons.end());
    if (!g->hasTab) continue;
    // bounds the path condition puts on these variables: fixed ones become constants, the others narrower variables
    size_t nv = g->vars.size(), nr = g->rows(); if (!nr) return 0;
    for (size_t j = 0; j < nv; j++) {
      uint64_t mn = ~0ull, mx = 0; uint32_t gv = g->vars[j]; VarInfo vi = g_vars[gv];
      for (size_t r = 0; r < nr; r++) { mn = std::min(mn, g->tab[r * nv + j]); mx = std::max(mx, g->tab[r * nv + j]); }
      if (mn == mx) { sub[gv] = mkConst(mn, vi.w); renamed.push_back({gv, sub[gv]}); }
      else if (mn > vi.lo || mx < vi.hi) {
        char key[96]; snprintf(key, sizeof key, "b%u:%u:%llu:%llu", slot++, vi.w, (unsigned long long)mn, (unsigned long long)mx);
        sub[gv] = mkVar(key, vi.name, vi.w, mn, mx); renamed.push_back({gv, sub[gv]}); }
    }
  }
  if (!sub.empty()) for (auto &c : conj) c = substExpr(c, sub);
  int r = solverCheck(conj, model);
  if (r == 1) for (auto &p : renamed) { if (model.size() <= p.first) model.resize(g_vars.size(), 0); uint32_t id = (uint32_t)p.second->c; model[p.first] = p.second->k == K_CONST ? p.second->c : id < model.size() ? std::max(g_vars[id].lo, std::min(g_vars[id].hi, model[id])) : g_vars[id].lo; }
  return r;
}
void Interp::addCons(State &s, Expr *c) {
  if (c->k == K_CONST) return;
  if (c->k == K_AND && c->w == 1) { addCons(s, c->o[0]); addCons(s, c->o[1]); return; }
  if (c->vs->v.empty()) return;
  Group *first = nullptr; bool single = true;
  for (uint32_t v : c->vs->v) { Group *g = s.groupOf(v); if (!first) first = g; if (!g || g != first) single = false; }
  static std::vector<uint64_t> tm;
  if (single && first) {
    for (Expr *e : first->cons) if (e == c) return;
    if (first->rc > first->vars.size()) { // shared with another state
      Group *g = new Group(*first); g->rc = 0;
      for (uint32_t v : g->vars) { s.groups[v]->rc--; s.groups[v] = g; g->rc++; }
      first = g;
    }
    first->cons.push_back(c);
    if (first->hasTab) {
      size_t nv = first->vars.size(), nr = first->rows(), o = 0; auto &t = first->tab;
      if (tm.size() < g_vars.size()) tm.resize(g_vars.size() + 64, 0);
      for (size_t r = 0; r < nr; r++) {
        for (size_t j = 0; j < nv; j++) tm[first->vars[j]] = t[r * nv + j];
        if (evalExpr(c, tm) & 1) { if (o != r) memmove(&t[o * nv], &t[r * nv], nv * sizeof(uint64_t)); o++; }
      }
      t.resize(o * nv);
    }
    return;
  }
  Group *n = new Group; n->rc = 0;
  std::set<Group *> seen; std::set<uint32_t> vs;
  std::vector<Factor> fs; bool tab = factors(s, c, fs);
  for (uint32_t v : c->vs->v) { vs.insert(v); Group *g = s.groupOf(v); if (g && seen.insert(g).second) { vs.insert(g->vars.begin(), g->vars.end()); n->cons.insert(n->cons.end(), g->cons.begin(), g->cons.end()); } }
  n->cons.push_back(c); n->vars.assign(vs.begin(), vs.end());
  if (tab) {
    n->hasTab = true;
    if (tm.size() < g_vars.size()) tm.resize(g_vars.size() + 64, 0);
    forRows(fs, tm, [&] { if (evalExpr(c, tm) & 1) for (uint32_t v : n->vars) n->tab.push_back(tm[v]); return false; });
  }
  if (s.groups.size() < g_vars.size()) s.groups.resize(g_vars.size(), nullptr);
  for (uint32_t v : n->vars) { Group *o = s.groups[v]; s.groups[v] = n; n->rc++; if (o && --o->rc == 0) delete o; }
}
State *Interp::forkState(State &s) {
  State *n = new State(s); sh->forks++; s.depth++;
  work.push_back(n); return n;
}
bool Interp::branch(State &s, Expr *c, State **other) {
  *other = nullptr;
  bool side = evalExpr(c, s.model) & 1;
  Expr *taken = side ? c : mkNot(c), *nt = side ? mkNot(c) : c;
  std::vector<uint64_t> m = s.model;
  int r = check(s, nt, m);
  if (r < 0) incomplete(s, "solver gave up on a branch");
  if (r == 1) {
    State *n = forkState(s); n->model.swap(m);
    addCons(*n, nt); addCons(s, taken); *other = n;
  }
  return side;
}
uint64_t Interp::conc(State &s, Val &v, unsigned w) {
  if (!v.e) return v.c;
  { static bool dbg = getenv("SXCONC"); if (dbg && v.e->k != K_CONST) { std::string l = where(s); fprintf(stderr, "conc %s at %s\n", exprStr(v.e, 4).c_str(), l.substr(0, l.find('\n')).c_str()); } }
  splitAddr(s, v);
  if (!v.e) return v.c;
  uint64_t c = evalExpr(v.e, s.model);
  Expr *eq = mkBin(K_EQ, v.e, mkConst(c, w));
  if (eq->k != K_CONST) {
    std::vector<uint64_t> m = s.model; Expr *ne = mkNot(eq);
    int r = check(s, ne, m);
    if (r < 0) incomplete(s, "solver gave up while fixing a value");
    if (r == 1) { sh->concretizations++; State *n = forkState(s); n->model.swap(m); addCons(*n, ne); addCons(s, eq); }
  }
  v.c = c; v.e = nullptr; return c;
}
static const char *internName(const char *n) { static std::set<std::string> pool; return pool.insert(n).first->c_str(); }
Val Interp::newSym(State &s, const char *name, unsigned w, uint64_t lo, uint64_t hi) {
  if (lo == hi) return C(lo); // nothing to choose: not part of the trace
  Expr *e = mkVar(std::to_string(s.nsyms++), name, w, lo, hi);
  uint32_t id = e->c;
  if (s.model.size() <= id) s.model.resize(g_vars.size(), 0);
  s.model[id] = lo;
  TraceEnt t; t.kind = 0; t.var = id; t.val = 0; t.name = internName(name); s.trace.push_back(t);
  Val v; v.c = 0; v.e = e; 
  return v;
}

// ---------------- memory ----------------
uint64_t Interp::alloc(State &s, uint64_t size, ObjKind k, uint8_t fill) {
  if (size > (1ull << 31)) { incomplete(s, "allocation larger than 2 GB"); endPath(s, false); }
  Obj *o = Obj::make(size, k, fill);
  uint32_t id = s.mem.add(o);
  if (k == OK_HEAP) s.liveHeap++;
  return (uint64_t)id << 32;
}
Obj *Interp::resolve(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  Obj *o = s.mem.lookup(addr >> 32);
  uint32_t off = (uint32_t)addr;
  if (!o || (uint64_t)off + n > o->size) {
    char buf[256];
    if (!o) {
      if (addr < 4096) snprintf(buf, sizeof buf, "null pointer %s (address 0x%llx)", what, (unsigned long long)addr);
      else snprintf(buf, sizeof buf, "%s of freed or invalid memory", what);
    }
    else snprintf(buf, sizeof buf, "out-of-bounds %s: %llu bytes at offset %d of %s object of %u bytes", what, (unsigned long long)n, (int)off, o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global", o->size);
    violation(s, "memory", buf); endPath(s, false);
  }
  if (write && o->ro) { violation(s, "memory", "write to read-only memory"); endPath(s, false); }
  if (write) o = s.mem.wlookup(addr >> 32);
  return o;
}
Val Interp::load(State &s, uint64_t addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = resolve(s, addr, n, false, "read");
  uint32_t off = (uint32_t)addr, pi = off / PS, po = off % PS;
  if (n <= 8 && po + n <= PS) {
    Page *p = o->pages[pi];
    if (!p) { uint64_t v = 0; memset(&v, o->fill, n); return C(v & maskw(w)); }
    if (!p->sym) { uint64_t v = 0; memcpy(&v, p->b + po, n); return C(v & maskw(w)); }
    bool any = false; uintptr_t *q = p->sym + po;
    for (unsigned i = 0; i < n; i++) any |= q[i] != 0;
    if (!any) { uint64_t v = 0; memcpy(&v, p->b + po, n); return C(v & maskw(w)); }
    // whole value?
    if (q[0] && (q[0] & 7) == 0) {
      Expr *e = (Expr *)q[0]; bool whole = true;
      if (e->w == (n == 1 && w == 1 ? 1 : n * 8) || (e->w == w)) {
        for (unsigned i = 1; i < n; i++) if (q[i] != ((uintptr_t)e | i)) { whole = false; break; }
        if (whole && e->w >= w) return V(mkExtract(e, 0, w));
        if (whole && e->w < w) return V(mkZExt(e, w));
      }
    }
  }
  // byte-wise
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    uint32_t a = off + i; Page *p = o->pages[a / PS]; Expr *b;
    if (p && p->sym && p->sym[a % PS]) {
      Expr *e = (Expr *)(p->sym[a % PS] & ~(uintptr_t)7); unsigned k = p->sym[a % PS] & 7;
      b = k * 8 >= e->w ? mkConst(0, 8) : e->w - k * 8 >= 8 ? mkExtract(e, k * 8, 8) : mkZExt(mkExtract(e, k * 8, e->w - k * 8), 8);
    } else b = mkConst(p ? p->b[a % PS] : o->fill, 8);
    r = r ? mkConcat(b, r) : b;
  }
  if (n * 8 > w) r = mkExtract(r, 0, w);
  if (w > 64) { Val v; v.c = 0; v.e = r; return v; }
  return V(r);
}
void Interp::store(State &s, uint64_t addr, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w > 64) {
    Expr *e = v.e;
    resolve(s, addr, n, true, "write");
    for (unsigned i = 0; i < w; i += 64) { unsigned k = std::min(64u, w - i); store(s, addr + i / 8, V(mkExtract(e, i, k)), k); }
    return;
  }
  Obj *o = resolve(s, addr, n, true, "write");
  uint32_t off = (uint32_t)addr, pi = off / PS, po = off % PS;
  if (!v.e) {
    if (po + n <= PS) {
      Page *p = o->wpage(pi);
      memcpy(p->b + po, &v.c, n);
      if (p->sym) memset(p->sym + po, 0, n * sizeof(uintptr_t));
    } else for (unsigned i = 0; i < n; i++) { uint32_t a = off + i; Page *p = o->wpage(a / PS); p->b[a % PS] = v.c >> (8 * i); if (p->sym) p->sym[a % PS] = 0; }
    return;
  }
  for (unsigned i = 0; i < n; i++) {
    uint32_t a = off + i; Page *p = o->wpage(a / PS);
    if (!p->sym) p->sym = (uintptr_t *)calloc(p->len, sizeof(uintptr_t));
    p->sym[a % PS] = (uintptr_t)v.e | i;
  }
}
// a pointer selected by conditions: follow each condition separately instead of carrying the selection into memory
void Interp::splitAddr(State &s, Val &a) {
  while (a.e) {
    Expr *it = findIte(a.e, 6); if (!it) return;
    State *other; bool side = branch(s, it->o[0], &other);
    Expr *r = replaceNode(a.e, it, side ? it->o[1] : it->o[2]);
    if (r->k == K_CONST) { a.c = r->c; a.e = nullptr; } else a.e = r;
  }
}
// a branch on a number chosen by conditions (loop counters of branch-free searches): decide those conditions first
void Interp::splitCond(State &s, Val &a) {
  while (a.e) {
    Expr *it = findCtlIte(a.e, 8); if (!it) return;
    State *other; bool side = branch(s, it->o[0], &other);
    Expr *r = replaceNode(a.e, it, side ? it->o[1] : it->o[2]);
    if (r->k == K_CONST) { a.c = r->c; a.e = nullptr; } else a.e = r;
  }
}
Val Interp::loadSym(State &s, Val &a, unsigned w) {
  splitAddr(s, a);
  if (!a.e) return load(s, a.c, w);
  Expr *e = a.e; uint64_t cur = evalExpr(e, s.model);
  Obj *o = s.mem.lookup(cur >> 32); unsigned n = (w + 7) / 8;
  if (o && o->size >= n && w <= 64) {
    uint64_t base = cur & ~0xffffffffull, last = base + o->size - n;
    bool inb = e->lo >= base && e->hi <= last;
    if (!inb) { std::vector<uint64_t> m = s.model;
      Expr *oob = mkBin(K_ULT, mkConst(o->size - n, 64), mkBin(K_SUB, e, mkConst(base, 64)));
      inb = oob->k == K_CONST ? !oob->c : check(s, oob, m) == 0; }
    if (inb) {
      uint64_t lo = std::max(e->lo, base), hi = std::min(e->hi, last), stride = 1;
      Expr *x = e->k == K_ADD && e->o[1]->k == K_CONST ? e->o[0] : e;
      if (x->k == K_SHL && x->o[1]->k == K_CONST) stride = 1ull << x->o[1]->c;
      else if (x->k == K_MUL && x->o[1]->k == K_CONST) stride = x->o[1]->c;
      if (stride > 1) { uint64_t ph = cur % stride; lo += (ph + stride - lo % stride) % stride; }
      if (hi >= lo && (hi - lo) / stride <= 64) {
        Expr *r = nullptr;
        for (uint64_t p = lo; p <= hi; p += stride) { Val v = load(s, p, w); Expr *ve = E(v, w); r = r ? mkIte(mkBin(K_EQ, e, mkConst(p, 64)), ve, r) : ve; }
        return V(r);
      }
    }
  }
  conc(s, a, 64);
  return load(s, a.c, w);
}
void Interp::copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  if (s.race) { raceAccess(s, src, n, false); raceAccess(s, d, n, true); }
  Obj *so = resolve(s, src, n, false, "read"); Obj *dob = resolve(s, d, n, true, "write");
  so = s.mem.lookup(src >> 32);
  uint32_t a = (uint32_t)src, b = (uint32_t)d;
  bool back = so == dob && a < b;
  if (so == dob && a == b) return;
  // chunk-wise copy
  uint64_t done = 0;
  while (done < n) {
    uint32_t ra, rb; uint64_t k;
    if (!back) { ra = a + done; rb = b + done; k = std::min<uint64_t>(n - done, std::min(PS - ra % PS, PS - rb % PS)); }
    else { uint64_t left = n - done; uint32_t ea = a + left, eb = b + left; // end positions
      k = std::min<uint64_t>(left, std::min((ea - 1) % PS + 1, (eb - 1) % PS + 1)); ra = ea - k; rb = eb - k; }
    Page *sp = so->pages[ra / PS];
    Page *dp0 = dob->pages[rb / PS];
    if (!sp && !dp0 && so->fill == dob->fill) { done += k; continue; }
    Page *dp = dob->wpage(rb / PS); sp = so->pages[ra / PS];
    if (!sp) { memset(dp->b + rb % PS, so->fill, k); if (dp->sym) memset(dp->sym + rb % PS, 0, k * sizeof(uintptr_t)); }
    else {
      memmove(dp->b + rb % PS, sp->b + ra % PS, k);
      if (sp->sym) { if (!dp->sym) dp->sym = (uintptr_t *)calloc(dp->len, sizeof(uintptr_t)); memmove(dp->sym + rb % PS, sp->sym + ra % PS, k * sizeof(uintptr_t)); }
      else if (dp->sym) memset(dp->sym + rb % PS, 0, k * sizeof(uintptr_t));
    }
    done += k;
  }
}
void Interp::setMem(State &s, uint64_t d, const Val &v, uint64_t n) {
  if (!n) return;
  if (s.race) raceAccess(s, d, n, true);
  Obj *o = resolve(s, d, n, true, "write");
  if (v.e) { for (uint64_t i = 0; i < n; i++) store(s, d + i, v, 8); return; }
  uint32_t b = (uint32_t)d; uint64_t done = 0;
  while (done < n) {
    uint32_t rb = b + done; uint64_t k = std::min<uint64_t>(n - done, PS - rb % PS);
    if (!(o->pages[rb / PS] == nullptr && o->fill == (uint8_t)v.c)) {
      Page *p = o->wpage(rb / PS); memset(p->b + rb % PS, v.c, k); if (p->sym) memset(p->sym + rb % PS, 0, k * sizeof(uintptr_t));
    }
    done += k;
  }
}
std::string Interp::cstr(State &s, uint64_t a) {
  std::string r;
  for (;;) { Val v = load(s, a++, 8); uint64_t c = conc(s, v, 8); if (!c) break; r += (char)c; if (r.size() > 4096) break; }
  return r;
}
void Interp::freeObj(State &s, uint64_t addr) {
  if (!addr) return;
  Obj *o = s.mem.lookup(addr >> 32);
  if (!o || (uint32_t)addr || o->kind != OK_HEAP) { violation(s, "memory", !o ? "double free or free of an invalid pointer" : "free of a pointer that was not allocated"); endPath(s, false); }
  if (s.race) { raceAccess(s, addr, ~0ull, true); s.wrace().sh.erase(o->id); }
  s.mem.remove(addr >> 32); s.liveHeap--;
}
// Records an access for race detection and reports one that is unordered with an earlier conflicting access.
// n == ~0: the object ends here (freed or out of scope).  Accesses made by the runtime itself are not the program's.
void Interp::raceAccess(State &s, uint64_t addr, uint64_t n, bool write, bool atomic) {
  Thread &t = s.th[s.cur]; bool end = n == ~0ull;
  if (!n || t.frames.empty() || (t.frames.back().inRt && !end)) return;
  uint32_t id = addr >> 32, off = (uint32_t)addr, me = s.cur; if (end) n = 0xffffffffu;
  auto it = s.race->sh.find(id);
  if (end && it == s.race->sh.end()) return;
  Race &r = s.wrace(); std::vector<uint32_t> &vc = r.clock(me);
  auto &p = r.sh[id]; if (!p) p = std::make_shared<std::vector<RRec>>();
  auto over = [&](const RRec &x) { return (uint64_t)x.off < off + n && (uint64_t)off < (uint64_t)x.off + x.len; };
  bool same = false;
  for (const RRec &x : *p) {
    if (x.tid != me && (x.w || write) && !(x.at && atomic) && over(x) && x.clk > (x.tid < vc.size() ? vc[x.tid] : 0)) {
      DILocation *l = x.pc < x.fn->locs.size() ? x.fn->locs[x.pc] : nullptr; std::string w = x.fn->name;
      while (l) { w += " " + l->getFilename().str() + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); if (l) w += " <-"; }
      violation(s, "race", std::string("data race: ") + (end ? "memory is released" : write ? "write" : "read") + " while another thread's " + (x.w ? "write" : "read") + " is unordered with it; the other access: " + w);
      endPath(s, false);
    }
    if (x.tid == me && x.off == off && x.len == n && x.clk == vc[me] && x.w >= write && x.at == atomic) same = true;
  }
  if (same || end) return;
  if (p.use_count() > 1) p = std::make_shared<std::vector<RRec>>(*p);
  auto &v = *p; size_t o = 0; // an earlier access that this one covers and is ordered after tells nothing new
  for (size_t i = 0; i < v.size(); i++) { const RRec &x = v[i];
    bool cov = x.off >= off && (uint64_t)x.off + x.len <= off + n && (write || !x.w) && (!atomic || x.at) && (x.tid == me || x.clk <= (x.tid < vc.size() ? vc[x.tid] : 0));
    if (!cov) v[o++] = x; }
  v.resize(o); Frame &f = t.frames.back();
  v.push_back(RRec{off, (uint32_t)n, vc[me], me, write, atomic, f.fn, f.pc});
}

// ---------------- calls ----------------
void Interp::takeEdge(State &s, const Edge *e) {
  size_t n = e->copies.size();
  if (n == 1) fp[e->copies[0].first] = R(e->copies[0].second);
  else if (n) {
    static std::vector<Val> tmp; tmp.resize(n);
    for (size_t i = 0; i < n; i++) tmp[i] = R(e->copies[i].second);
    for (size_t i = 0; i < n; i++) fp[e->copies[i].first] = tmp[i];
  }
  fr->pc = e->pc;
}
void Interp::pushFrame(State &s, FnInfo *fi, const Ins *call, std::vector<Val> &args, const CallX *cx) {
  if (!fi->decoded) decode(fi);
  if (fi->index < 65536) sh->fnHit[fi->index].store(1, std::memory_order_relaxed);
  Thread &t = s.th[s.cur];
  if (t.frames.size() > 20000) { violation(s, "memory", "stack overflow (recursion deeper than 20000 frames)"); endPath(s, false); }
  Frame f; f.fn = fi; f.base = t.stack.size(); f.pc = 0; f.call = call; f.allocaBase = t.allocas.size(); f.vabase = t.varargs.size(); f.inRt = fi->isRt || (!t.frames.empty() && t.frames.back().inRt);
  t.stack.resize(f.base + fi->nslots, Val{0, nullptr});
  size_t na = std::min<size_t>(args.size(), fi->nargs);
  for (size_t i = 0; i < na; i++) t.stack[f.base + i] = args[i];
  if (fi->vararg) for (size_t i = fi->nargs; i < args.size(); i++) t.varargs.push_back(args[i]);
  t.frames.push_back(f);
  if (cx) for (size_t i = 0; i < na && i < cx->byval.size(); i++) if (cx->byval[i]) {
    uint64_t src = conc(s, args[i], 64), d = alloc(s, cx->byval[i], OK_STACK, 0xCD);
    s.th[s.cur].allocas.push_back(d >> 32);
    copyMem(s, d, src, cx->byval[i]);
    s.th[s.cur].stack[f.base + i] = C(d);
  }
  reload(s);
}
void Interp::popFrame(State &s, Thread &t) {
  Frame &f = t.frames.back();
  for (size_t i = f.allocaBase; i < t.allocas.size(); i++) {
    if (s.race) { Obj *o = s.mem.lookup(t.allocas[i]); raceAccess(s, (uint64_t)t.allocas[i] << 32, ~0ull, true); s.wrace().sh.erase(o->id); }
    s.mem.remove(t.allocas[i]);
  }
  t.allocas.resize(f.allocaBase); t.varargs.resize(f.vabase); t.stack.resize(f.base); t.frames.pop_back();
}
void Interp::doRet(State &s, const std::vector<Val> &rv) {
  Thread &t = s.th[s.cur];
  const Ins *call = t.frames.back().call;
  popFrame(s, t);
  if (t.frames.empty()) {
    t.st = TS_DONE; t.retval = rv.empty() || rv[0].e ? 0 : rv[0].c;
    if (s.cur == 0) { running = false; endPath(s, true); }
    blockCurrent(s); return;
  }
  reload(s);
  if (!call) return; // frame pushed by the engine (resumes at the caller's current pc)
  CallX *x = (CallX *)call->x;
  for (uint32_t i = 0; i < x->nret && i < rv.size(); i++) fp[call->dst + i] = rv[i];
  if (x->invoke) takeEdge(s, x->normal); else fr->pc++;
}
void Interp::finishNative(State &s, const Ins &in, const Val *rv) {
  CallX *x = (CallX *)in.x;
  if (rv && x->nret) { Val v = *rv; if (!v.e && x->retw < 64) v.c &= maskw(x->retw); fp[in.dst] = v; }
  if (x->invoke) takeEdge(s, x->normal); else fr->pc++;
}
void Interp::doCall(State &s, const Ins &in) {
  CallX *x = (CallX *)in.x; FnInfo *fi = x->fi;
  if (x->indirect) {
    uint64_t a = conc(s, R(x->callee), 64);
    auto it = fnById.find(a >> 32);
    if (it == fnById.end() || (uint32_t)a) { violation(s, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); endPath(s, false); }
    fi = it->second;
  }
  static std::vector<Val> args; args.clear();
  for (auto r : x->args) args.push_back(R(r));
  if (fi->nat) { if (fi->index < 65536) sh->fnHit[fi->index].store(1, std::memory_order_relaxed); fi->nat(*this, s, in, args); return; }
  if (fi->external) { incomplete(s, "call to external function " + fi->name); endPath(s, false); }
  std::vector<Val> a2 = args; // args is static: recursion-safe copy
  pushFrame(s, fi, &in, a2, x);
}

// ---------------- exceptions ----------------
bool Interp::tiMatch(State &s, uint64_t c, uint64_t t, uint64_t obj, uint64_t &adj) {
  if (c == t) { adj = obj; return true; }
  if (!t || !s.mem.lookup(t >> 32)) return false;
  Obj *to = s.mem.lookup(t >> 32); if (to->size < 16) return false;
  uint64_t vt = load64(s, t);
  if (vt == siTI && siTI) return tiMatch(s, c, load64(s, t + 16), obj, adj);
  if (vt == vmiTI && vmiTI) {
    uint32_t n = load32(s, t + 20);
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = load64(s, t + 24 + 16 * i); int64_t of = (int64_t)load64(s, t + 32 + 16 * i);
      if (!(of & 2)) continue;
      int64_t o = of >> 8;
      if (of & 1) { uint64_t vp = load64(s, obj); o = (int64_t)load64(s, vp + o); }
      if (tiMatch(s, c, b, obj + o, adj)) return true;
    }
  }
  return false;
}
void Interp::raise(State &s, uint64_t exc) {
  Thread &t = s.th[s.cur];
  uint64_t ti = load64(s, exc - 64);
  auto matchAt = [&](Frame &f, bool &cleanup, uint64_t &sel, uint64_t &adj) -> bool { // does f's current call land?
    const Ins &in = f.fn->code[f.pc];
    cleanup = false;
    if (in.op != OP_CALL) return false;
    CallX *x = (CallX *)in.x; if (!x->invoke) return false;
    LpadX *lp = nullptr; for (uint32_t p = x->unwind->pc; p < f.fn->code.size(); p++) if (f.fn->code[p].op == OP_LPAD) { lp = (LpadX *)f.fn->code[p].x; break; }
    if (!lp) return false;
    cleanup = lp->cleanup;
    for (auto &c : lp->clauses) {
      if (c.filter) { sel = 0x7ffffff2; if (c.ti.empty()) return true; continue; }
      if (c.ti[0] == 0) { sel = 0x7ffffff1; adj = exc; return true; }
      if (tiMatch(s, c.ti[0], ti, exc, adj)) { sel = (c.ti[0] >> 32) & 0x7fffffff; return true; }
    }
    return false;
  };
  bool found = false;
  for (int i = t.frames.size() - 1; i >= 0; i--) { bool cl; uint64_t se, ad; if (matchAt(t.frames[i], cl, se, ad)) { found = true; break; } }
  if (!found) {
    std::string n = "?";
    try { n = cstr(s, load64(s, ti + 8)); } catch (PathEnd &) {}
    violation(s, "exception", "uncaught exception of type " + n); endPath(s, false);
  }
  for (;;) {
    Frame &f = t.frames.back(); bool cl; uint64_t sel = 0, adj = exc;
    bool m = matchAt(f, cl, sel, adj);
    if (m || cl) {
      t.landExc = exc; t.landSel = m ? sel : 0;
      if (m) store64(s, exc - 32, adj);
      CallX *x = (CallX *)f.fn->code[f.pc].x;
      reload(s); takeEdge(s, x->unwind); return;
    }
    popFrame(s, t);
  }
}

// ---------------- threads ----------------
bool Interp::enabled(State &s, uint32_t i) {
  Thread &t = s.th[i];
  switch (t.st) {
  case TS_RUN: return true;
  case TS_MUTEX: return load32(s, t.waitAddr) == 0;
  case TS_JOIN: return s.th[t.joinOn].st == TS_DONE;
  default: return false;
  }
}
void Interp::switchTo(State &s, uint32_t i) { s.cur = i; Thread &t = s.th[i]; t.scheduled = true; t.st = TS_RUN; }
bool Interp::sched(State &s) {
  Thread &t = s.th[s.cur];
  if (t.scheduled) { t.scheduled = false; return true; }
  if (s.th.size() < 2 || !s.schedOn) return true;
  s.clock++;
  if (s.preempt <= 0) return true;
  sh->schedPoints++;
  for (uint32_t i = 0; i < s.th.size(); i++) if (i != s.cur && enabled(s, i)) {
    State *n = forkState(s); n->preempt--;
    TraceEnt e; e.kind = 1; e.var = 0; e.val = s.clock << 8 | i; e.name = ""; n->trace.push_back(e);
    switchTo(*n, i);
  }
  return true;
}
void Interp::blockCurrent(State &s) {
  std::vector<uint32_t> en;
  for (uint32_t i = 0; i < s.th.size(); i++) if (i != s.cur && enabled(s, i)) en.push_back(i);
  if (s.th[s.cur].st != TS_DONE && enabled(s, s.cur)) en.push_back(s.cur);
  if (en.empty()) { // a timed wait may time out
    for (uint32_t i = 0; i < s.th.size(); i++) if (s.th[i].st == TS_COND && s.th[i].timedWait) en.push_back(i);
    if (!en.empty()) { s.th[en[0]].timedOut = true; s.th[en[0]].woken = true; en.resize(1); }
  }
  if (en.empty()) {
    std::string d; for (uint32_t i = 0; i < s.th.size(); i++) { d += " thread" + std::to_string(i) + (s.th[i].st == TS_DONE ? ":finished" : s.th[i].st == TS_MUTEX ? ":waits for a mutex" : s.th[i].st == TS_COND ? ":waits on a condition variable" : ":waits in join"); }
    if (s.th[0].st != TS_DONE) s.cur = 0;
    violation(s, "deadlock", "all threads are blocked:" + d); endPath(s, false);
  }
  s.clock++;
  if (s.delayed) std::rotate(en.begin(), std::find_if(en.begin(), en.end(), [&](uint32_t i) { return i > s.cur; }), en.end()); // round robin; any other choice counts as a preemption
  if (s.schedOn && en.size() > 1 && (!s.delayed || s.preempt > 0)) {
    sh->schedPoints++;
    for (size_t k = 1; k < en.size(); k++) {
      State *n = forkState(s); if (s.delayed) n->preempt--; TraceEnt e; e.kind = 2; e.var = 0; e.val = s.clock << 8 | en[k]; e.name = ""; n->trace.push_back(e);
      switchTo(*n, en[k]);
    }
  }
  TraceEnt e; e.kind = 2; e.var = 0; e.val = s.clock << 8 | en[0]; e.name = ""; s.trace.push_back(e);
  switchTo(s, en[0]);
  reload(s);
}

// ---------------- execution ----------------
static double asF64(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromF64(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF32(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static uint64_t fromF32(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static double fval(uint64_t v, unsigned w) { return w == 32 ? asF32(v) : asF64(v); }
static uint64_t fenc(double d, unsigned w) { return w == 32 ? fromF32((float)d) : fromF64(d); }

static uint64_t binc(unsigned k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & M; case K_SUB: return (a - b) & M; case K_MUL: return (a * b) & M;
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & M; case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return (uint64_t)(sext64(a, w) >> (b >= w ? w - 1 : b)) & M;
  case K_UDIV: return a / b; case K_UREM: return a % b;
  case K_SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (y == -1) return (0 - a) & M; return (uint64_t)(x / y) & M; }
  case K_SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & M; }
  }
  abort();
}
static bool icmpc(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
  default: { int64_t x = sext64(a, w), y = sext64(b, w);
    switch (p) { case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; } }
  }
  abort();
}
static Expr *icmpe(unsigned p, Expr *a, Expr *b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkBin(K_EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(K_EQ, a, b));
  case CmpInst::ICMP_ULT: return mkBin(K_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(K_ULE, a, b);
  case CmpInst::ICMP_UGT: return mkBin(K_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(K_ULE, b, a);
  case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(K_SLE, a, b);
  case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(K_SLE, b, a);
  }
  abort();
}
static std::vector<long double> g_ld; // x87 values, always concrete: a register holds an index into this table
static uint64_t ldNew(long double x) { g_ld.push_back(x); return g_ld.size() - 1; }
static bool fcmpc(unsigned p, double a, double b) {
  bool u = std::isnan(a) || std::isnan(b);
  switch (p) {
  case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
  case CmpInst::FCMP_OEQ: return !u && a == b; case CmpInst::FCMP_OGT: return !u && a > b; case CmpInst::FCMP_OGE: return !u && a >= b; case CmpInst::FCMP_OLT: return !u && a < b; case CmpInst::FCMP_OLE: return !u && a <= b; case CmpInst::FCMP_ONE: return !u && a != b; case CmpInst::FCMP_ORD: return !u;
  case CmpInst::FCMP_UNO: return u; case CmpInst::FCMP_UEQ: return u || a == b; case CmpInst::FCMP_UGT: return u || a > b; case CmpInst::FCMP_UGE: return u || a >= b; case CmpInst::FCMP_ULT: return u || a < b; case CmpInst::FCMP_ULE: return u || a <= b; case CmpInst::FCMP_UNE: return u || a != b;
  }
  abort();
}

void Interp::run(State &s) {
  running = true; reload(s);
  uint64_t cnt = 0; uint64_t lastCheck = 0;
  static double lastSplit = 0;
  struct Acc { Interp &I; State &s; uint64_t &c; ~Acc() { s.instrs += c; I.sh->instrs += c; uint64_t m = I.sh->maxInstr; while (s.instrs > m && !I.sh->maxInstr.compare_exchange_weak(m, s.instrs)); } } acc{*this, s, cnt};
  static bool dbg = getenv("SXTRACE");
  for (;;) {
    const Ins &in = fr->fn->code[fr->pc];
    cnt++;
    if (cnt - lastCheck > 20000) {
      lastCheck = cnt;
      if (sh->stop) throw PathEnd();
      double t = now();
      if (t - g_start > opt.deadline) { sh->timedout = 1; s.instrs += cnt; suspect(s, "the path still ran at the deadline"); throw PathEnd(); }
      if (s.instrs + cnt > opt.pathInstrLimit) { violation(s, "hang", "path exceeded " + std::to_string(opt.pathInstrLimit) + " instructions (no termination within the bound)"); endPath(s, false); }
      if (!work.empty() && t - lastSplit > 0.01) { lastSplit = t; maybeSplit(); }
    }
    if (dbg) { std::string w = where(s); fprintf(stderr, "[%u] op%d %s\n", s.cur, in.op, w.substr(0, w.find('\n')).c_str()); }
    switch (in.op) {
    case OP_NOP: fr->pc++; break;
    case OP_BIN: {
      Val &a = R(in.a), &b = R(in.b);
      bool div = in.sub >= K_UDIV && in.sub <= K_SREM;
      if (!a.e && !b.e) {
        if (div && b.c == 0) { violation(s, "arithmetic", "division by zero"); endPath(s, false); }
        fp[in.dst] = C(binc(in.sub, a.c, b.c, in.w));
      } else {
        Expr *x = E(a, in.w), *y = E(b, in.w);
        if (div && !(y->lo > 0)) {
          Expr *z = mkBin(K_EQ, y, mkConst(0, in.w)); 
          if (z->k != K_CONST) { State *o; bool side = branch(s, z, &o); if (side) { violation(s, "arithmetic", "division by zero"); endPath(s, false); } /* o re-executes */ }
          else if (z->c) { violation(s, "arithmetic", "division by zero"); endPath(s, false); }
        }
        Expr *r = mkBin((Kind)in.sub, x, y);
        if (in.w > 64) { fp[in.dst].c = 0; fp[in.dst].e = r; } else fp[in.dst] = V(r);
      }
      fr->pc++; break; }
    case OP_ICMP: {
      Val &a = R(in.a), &b = R(in.b);
      if (!a.e && !b.e) fp[in.dst] = C(icmpc(in.sub, a.c, b.c, in.w));
      else {
        Expr *r = icmpe(in.sub, E(a, in.w), E(b, in.w));
        if (r->k != K_CONST && r->vs->v.empty()) { std::vector<uint64_t> m; fp[in.dst] = C(evalExpr(r, m)); } else fp[in.dst] = V(r);
      }
      fr->pc++; break; }
    case OP_FBIN: {
      if (in.w > 80 || (in.w == 80 && (R(in.a).e || R(in.b).e))) goto unsupported;
      if (in.w == 80) { if (R(in.a).c >= g_ld.size() || R(in.b).c >= g_ld.size()) goto unsupported; long double x = g_ld[R(in.a).c], y = g_ld[R(in.b).c], z; switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodl(x, y); } fp[in.dst] = C(ldNew(z)); fr->pc++; break; }
      if (in.w == 64 && (R(in.a).e || R(in.b).e) && in.sub != Instruction::FRem) {
        if (in.sub == Instruction::FDiv && R(in.a).e && R(in.a).e->k == K_FDY && R(in.a).e->o[1]->c && !R(in.b).e) { // a quotient needs a known sign
          Expr *c = fpNonNeg(R(in.a).e); if (c && c->k != K_CONST) { State *o; if (branch(s, c, &o)) { Expr *n = fpKnownNonNeg(R(in.a).e); if (n) R(in.a) = V(n); } } }
        Expr *e = fpBin(in.sub == Instruction::FAdd ? FP_ADD : in.sub == Instruction::FSub ? FP_SUB : in.sub == Instruction::FMul ? FP_MUL : FP_DIV, E(R(in.a), 64), E(R(in.b), 64));
        if (e) { fp[in.dst] = V(e); fr->pc++; break; } }
      uint64_t a = conc(s, R(in.a), in.w), b = conc(s, R(in.b), in.w); uint64_t r;
      if (in.w == 32) { float x = asF32(a), y = asF32(b), z = 0;
        switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); } r = fromF32(z);
      } else { double x = asF64(a), y = asF64(b), z = 0;
        switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); } r = fromF64(z); }
      fp[in.dst] = C(r); fr->pc++; break; }
    case OP_FNEG: { if (in.w > 64) goto unsupported; if (in.w == 64 && R(in.a).e) if (Expr *e = fpNeg(R(in.a).e)) { fp[in.dst] = V(e); fr->pc++; break; } uint64_t a = conc(s, R(in.a), in.w); fp[in.dst] = C(a ^ (1ull << (in.w - 1))); fr->pc++; break; }
    case OP_FCMP: { if (in.w > 64) goto unsupported;
      if (in.w == 64 && (R(in.a).e || R(in.b).e)) {
        unsigned p = in.sub; int rel = (p & 4 ? 1 : 0) | (p & 1 ? 2 : 0) | (p & 2 ? 4 : 0); // LLVM's encoding: U L G E
        if (Expr *e = fpCmp(rel, E(R(in.a), 64), E(R(in.b), 64))) { fp[in.dst] = V(e); fr->pc++; break; } }
      uint64_t a = conc(s, R(in.a), in.w), b = conc(s, R(in.b), in.w); fp[in.dst] = C(fcmpc(in.sub, fval(a, in.w), fval(b, in.w))); fr->pc++; break; }
    case OP_FPCAST: {
      if (in.n == 80) {
        if (R(in.a).e || R(in.a).c >= g_ld.size()) goto unsupported;
        long double x = g_ld[R(in.a).c]; uint64_t v;
        switch (in.sub) { case Instruction::FPTrunc: v = fenc((double)x, in.w); if (in.w == 32) v = fromF32((float)x); break; case Instruction::FPToSI: v = (uint64_t)(int64_t)x & maskw(in.w); break; case Instruction::FPToUI: v = (uint64_t)x & maskw(in.w); break; default: goto unsupported; }
        fp[in.dst] = C(v); fr->pc++; break; }
      if (in.n > 64 || in.w > 80) goto unsupported;
      if (R(in.a).e) { Expr *x = R(in.a).e, *e = nullptr;
        if (in.w == 64 && (in.sub == Instruction::UIToFP || in.sub == Instruction::SIToFP)) {
          bool sg = in.sub == Instruction::SIToFP;
          if (sg && in.n <= 32 && x->hi > (maskw(in.n) >> 1)) e = fpFromSInt(x, in.n);
          else { 
            Expr *n = mkZExt(x, 64);
            if (n->hi < (1ull << 53)) e = fpFromUInt(n);
            else if (in.n == 64) { // small on this path? then so is its low part
              Expr *c = mkBin(K_ULT, x, mkConst(1ull << 50, 64)); bool side = c->k == K_CONST ? c->c : true; if (c->k != K_CONST) { State *o; side = branch(s, c, &o); }
              if (side) e = fpFromUInt(mkZExt(mkExtract(x, 0, 50), 64)); }
          }
        } else if (in.n == 64 && (in.sub == Instruction::FPToUI || in.sub == Instruction::FPToSI) && fpIs(x)) {
          Expr *c = fpNonNeg(x); bool side = true;
          if (c) { if (c->k == K_CONST) side = c->c; else { State *o; side = branch(s, c, &o); }
            e = fpToInt(x, side); if (e && in.w < 64) e = mkExtract(e, 0, in.w); }
        }
        if (e) { fp[in.dst] = V(e); fr->pc++; break; } }
      uint64_t a = conc(s, R(in.a), in.n), r = 0;
      if (in.w == 80) {
        switch (in.sub) { case Instruction::FPExt: r = ldNew(fval(a, in.n)); break; case Instruction::SIToFP: r = ldNew((long double)sext64(a, in.n)); break; case Instruction::UIToFP: r = ldNew((long double)a); break; default: goto unsupported; }
        fp[in.dst] = C(r); fr->pc++; break; }
      switch (in.sub) {
      case Instruction::FPExt: r = fromF64(asF32(a)); break;
      case Instruction::FPTrunc: r = fromF32((float)asF64(a)); break;
      case Instruction::SIToFP: r = in.w == 32 ? fromF32((float)sext64(a, in.n)) : fromF64((double)sext64(a, in.n)); break;
      case Instruction::UIToFP: r = in.w == 32 ? fromF32((float)a) : fromF64((double)a); break;
      case Instruction::FPToSI: { double d = fval(a, in.n); r = (uint64_t)(int64_t)d & maskw(in.w); break; }
      case Instruction::FPToUI: { double d = fval(a, in.n); r = (uint64_t)d & maskw(in.w); break; }
      }
      fp[in.dst] = C(r); fr->pc++; break; }
    case OP_CAST_ZEXT: { Val &a = R(in.a); if (!a.e && in.w <= 64) fp[in.dst] = C(a.c); else { Expr *r = mkZExt(E(a, in.sub), in.w); if (in.w > 64) { fp[in.dst].c = 0; fp[in.dst].e = r; } else fp[in.dst] = V(r); } fr->pc++; break; }
    case OP_CAST_SEXT: { Val &a = R(in.a); if (!a.e && in.w <= 64) fp[in.dst] = C((uint64_t)sext64(a.c, in.sub) & maskw(in.w)); else { Expr *r = mkSExt(E(a, in.sub), in.w); if (in.w > 64) { fp[in.dst].c = 0; fp[in.dst].e = r; } else fp[in.dst] = V(r); } fr->pc++; break; }
    case OP_CAST_TRUNC: { Val &a = R(in.a); if (!a.e) fp[in.dst] = C(a.c & maskw(in.w)); else { Expr *r = mkExtract(a.e, 0, in.w); if (in.w <= 64 && r->k != K_CONST && r->vs->v.empty()) { std::vector<uint64_t> m; fp[in.dst] = C(evalExpr(r, m)); } else fp[in.dst] = in.w > 64 ? Val{0, r} : V(r); } fr->pc++; break; }
    case OP_MOV: fp[in.dst] = R(in.a); fr->pc++; break;
    case OP_GEPC: { Val &a = R(in.a); if (!a.e) fp[in.dst] = C(a.c + in.imm); else fp[in.dst] = V(mkBin(K_ADD, a.e, mkConst(in.imm, 64))); fr->pc++; break; }
    case OP_GEP: {
      GepX *g = (GepX *)in.x; Val &b = R(in.a); uint64_t c = in.imm; Expr *e = nullptr;
      if (!b.e) c += b.c; else e = b.e;
      for (size_t i = 0; i < g->idx.size(); i++) {
        Val &v = R(g->idx[i].first);
        if (!v.e) c += (uint64_t)(sext64(v.c, g->w[i]) * g->idx[i].second);
        else { Expr *t = mkBin(K_MUL, mkSExt(v.e, 64), mkConst(g->idx[i].second, 64)); e = e ? mkBin(K_ADD, e, t) : t; }
      }
      if (!e) fp[in.dst] = C(c); else fp[in.dst] = V(mkBin(K_ADD, e, mkConst(c, 64)));
      fr->pc++; break; }
    case OP_LOAD: {
      Val &a = R(in.a);
      if (in.sub && s.schedAtomics && !in.n) { sched(s); }
      if (!a.e) { Val v = load(s, a.c + in.imm, in.w); if (s.race) { raceAccess(s, a.c + in.imm, (in.w + 7) / 8, false, in.sub); if (in.sub) s.wrace().acquire(s.cur, a.c + in.imm); } fp[in.dst] = v; }
      else if (!in.imm) { Val t = a; Val v = loadSym(s, t, in.w); fp[in.dst] = v; }
      else { Val t = a; conc(s, t, 64); fp[in.dst] = load(s, t.c + in.imm, in.w); }
      fr->pc++; break; }
    case OP_STORE: {
      Val &a = R(in.a); Val t = a;
      if (in.sub && s.schedAtomics && !in.n) { sched(s); }
      conc(s, t, 64); Val v = R(in.b);
      store(s, t.c + in.imm, v, in.w); if (s.race) { raceAccess(s, t.c + in.imm, (in.w + 7) / 8, true, in.sub); if (in.sub) s.wrace().release(s.cur, t.c + in.imm); } fr->pc++; break; }
    case OP_ALLOCA: {
      uint64_t n = conc(s, R(in.a), in.n); uint64_t a = alloc(s, n * in.imm, OK_STACK, 0xCD);
      s.th[s.cur].allocas.push_back(a >> 32); fp[in.dst] = C(a); fr->pc++; break; }
    case OP_BR: takeEdge(s, (Edge *)in.x); break;
    case OP_CBR: {
      Edge **ed = (Edge **)in.x; Val &c = R(in.a);
      if (!c.e) { takeEdge(s, c.c ? ed[0] : ed[1]); break; }
      splitCond(s, c);
      if (!c.e) { takeEdge(s, c.c ? ed[0] : ed[1]); break; }
      State *o; bool side = branch(s, c.e, &o);
      if (o) { // the other side starts at its own edge
        Frame *sf = fr; Val *sp = fp;
        reload(*o); takeEdge(*o, side ? ed[1] : ed[0]);
        fr = sf; fp = sp;
      }
      takeEdge(s, side ? ed[0] : ed[1]); break; }
    case OP_SWITCH: {
      SwX *x = (SwX *)in.x; Val &v = R(in.a);
      if (!v.e) { const Edge *e = x->def; for (size_t i = 0; i < x->vals.size(); i++) if (x->vals[i] == v.c) { e = x->to[i]; break; } takeEdge(s, e); break; }
      // which target does the model take?
      uint64_t cv = evalExpr(v.e, s.model); Edge *te = x->def; for (size_t i = 0; i < x->vals.size(); i++) if (x->vals[i] == cv) te = x->to[i];
      Expr *cond = mkConst(te == x->def, 1);
      if (te == x->def) { for (size_t i = 0; i < x->vals.size(); i++) if (x->to[i] != x->def) cond = mkBin(K_AND, cond, mkNot(mkBin(K_EQ, v.e, mkConst(x->vals[i], in.w)))); }
      else for (size_t i = 0; i < x->vals.size(); i++) if (x->to[i] == te) cond = mkBin(K_OR, cond, mkBin(K_EQ, v.e, mkConst(x->vals[i], in.w)));
      if (cond->k != K_CONST) { State *o; branch(s, cond, &o); } // the other state re-executes the switch
      takeEdge(s, te); break; }
    case OP_RET: {
      RetX *x = (RetX *)in.x; std::vector<Val> rv; for (auto r : x->v) rv.push_back(R(r));
      doRet(s, rv); break; }
    case OP_CALL: doCall(s, in); break;
    case OP_SELECT: {
      Val &c = R(in.a);
      if (!c.e) fp[in.dst] = c.c ? R(in.b) : R(in.c);
      else if (in.imm == 2) { State *o; bool side = branch(s, c.e, &o); fp[in.dst] = side ? R(in.b) : R(in.c); }
      else if (in.imm == 1 && !R(in.b).e && !R(in.c).e && R(in.b).c != R(in.c).c) { State *o; bool side = branch(s, c.e, &o); fp[in.dst] = side ? R(in.b) : R(in.c); } // the other state re-executes the selection
      else { Val x = R(in.b), y = R(in.c); Expr *r = mkIte(c.e, E(x, in.w), E(y, in.w)); fp[in.dst] = in.w > 64 ? Val{0, r} : V(r); }
      fr->pc++; break; }
    case OP_UNREACHABLE: violation(s, "unreachable", "execution reached undefined behaviour (unreachable)"); endPath(s, false);
    case OP_TRAP: violation(s, "trap", "undefined-behaviour trap"); endPath(s, false);
    case OP_RESUME: { uint64_t e = conc(s, R(in.a), 64); 
      // the frame with the resume is left; continue in the caller
      Thread &t = s.th[s.cur]; popFrame(s, t); 
      if (t.frames.empty()) { violation(s, "exception", "exception left the thread"); endPath(s, false); }
      raise(s, e); break; }
    case OP_LPAD: { Thread &t = s.th[s.cur]; fp[in.dst] = C(t.landExc); fp[in.dst + 1] = C(t.landSel); fr->pc++; break; }
    case OP_ARMW: {
      if (s.schedAtomics) sched(s);
      Val t = R(in.a); conc(s, t, 64); if (s.race) { raceAccess(s, t.c, (in.w + 7) / 8, true, true); Race &rc = s.wrace(); rc.acquire(s.cur, t.c); rc.release(s.cur, t.c); } Val old = load(s, t.c, in.w), v = R(in.b); Val r; unsigned w = in.w;
      Expr *x = nullptr, *y = nullptr; bool cc = !old.e && !v.e; if (!cc) { x = E(old, w); y = E(v, w); }
      switch (in.sub) {
      case AtomicRMWInst::Xchg: r = v; break;
      case AtomicRMWInst::Add: r = cc ? C((old.c + v.c) & maskw(w)) : V(mkBin(K_ADD, x, y)); break;
      case AtomicRMWInst::Sub: r = cc ? C((old.c - v.c) & maskw(w)) : V(mkBin(K_SUB, x, y)); break;
      case AtomicRMWInst::And: r = cc ? C(old.c & v.c) : V(mkBin(K_AND, x, y)); break;
      case AtomicRMWInst::Or: r = cc ? C(old.c | v.c) : V(mkBin(K_OR, x, y)); break;
      case AtomicRMWInst::Xor: r = cc ? C(old.c ^ v.c) : V(mkBin(K_XOR, x, y)); break;
      default: goto unsupported;
      }
      store(s, t.c, r, w); fp[in.dst] = old; fr->pc++; break; }
    case OP_CMPXCHG: {
      if (s.schedAtomics) sched(s);
      Val t = R(in.a); conc(s, t, 64); if (s.race) { raceAccess(s, t.c, (in.w + 7) / 8, true, true); Race &rc = s.wrace(); rc.acquire(s.cur, t.c); rc.release(s.cur, t.c); } Val old = load(s, t.c, in.w), c = R(in.b), n = R(in.c);
      if (old.e || c.e) {
        Expr *eq = mkBin(K_EQ, E(old, in.w), E(c, in.w));
        Expr *r = mkIte(eq, E(n, in.w), E(old, in.w)); store(s, t.c, V(r), in.w); fp[in.dst] = old; fp[in.dst + 1] = V(eq);
      } else { bool eq = old.c == c.c; if (eq) store(s, t.c, n, in.w); fp[in.dst] = old; fp[in.dst + 1] = C(eq); }
      fr->pc++; break; }
    case OP_OVF: {
      Val a = R(in.a), b = R(in.b); unsigned w = in.w;
      if (!a.e && !b.e && w <= 64) {
        uint64_t r; bool o; int64_t sx = sext64(a.c, w), sy = sext64(b.c, w); __int128 z; unsigned __int128 uz;
        switch (in.sub) {
        case 0: uz = (unsigned __int128)a.c * b.c; r = (uint64_t)uz & maskw(w); o = uz > maskw(w); break;
        case 1: z = (__int128)sx * sy; r = (uint64_t)z & maskw(w); o = z != (__int128)sext64(r, w); break;
        case 2: uz = (unsigned __int128)a.c + b.c; r = (uint64_t)uz & maskw(w); o = uz > maskw(w); break;
        case 3: z = (__int128)sx + sy; r = (uint64_t)z & maskw(w); o = z != (__int128)sext64(r, w); break;
        case 4: r = (a.c - b.c) & maskw(w); o = a.c < b.c; break;
        default: z = (__int128)sx - sy; r = (uint64_t)z & maskw(w); o = z != (__int128)sext64(r, w); break;
        }
        fp[in.dst] = C(r); fp[in.dst + 1] = C(o);
      } else {
        Expr *x = E(a, w), *y = E(b, w);
        bool sg = in.sub & 1; unsigned k = in.sub / 2; unsigned W = k == 0 ? 2 * w : w + 1;
        Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W);
        Kind kk = k == 0 ? K_MUL : k == 1 ? K_ADD : K_SUB;
        Expr *r = mkBin(kk, x, y); Expr *o;
        if (in.sub == 2 && x->hi + y->hi >= x->hi && x->hi + y->hi <= maskw(w)) o = mkConst(0, 1);
        else if (in.sub == 0 && (unsigned __int128)x->hi * y->hi <= maskw(w)) o = mkConst(0, 1);
        else if (in.sub == 4) o = mkBin(K_ULT, x, y);
        else if (in.sub == 0 && y->k == K_CONST && y->c) o = mkBin(K_ULT, mkConst(maskw(w) / y->c, w), x);
        else { Expr *F = mkBin(kk, X, Y); o = mkNot(mkBin(K_EQ, F, sg ? mkSExt(r, W) : mkZExt(r, W))); }
        fp[in.dst] = V(r); fp[in.dst + 1] = V(o);
      }
      fr->pc++; break; }
    case OP_MINMAX: {
      Val a = R(in.a), b = R(in.b); unsigned w = in.w;
      static const unsigned pr[4] = {CmpInst::ICMP_UGT, CmpInst::ICMP_ULT, CmpInst::ICMP_SGT, CmpInst::ICMP_SLT};
      if (!a.e && !b.e) fp[in.dst] = icmpc(pr[in.sub], a.c, b.c, w) ? a : b;
      else fp[in.dst] = V(mkIte(icmpe(pr[in.sub], E(a, w), E(b, w)), E(a, w), E(b, w)));
      fr->pc++; break; }
    case OP_ABS: { Val a = R(in.a); unsigned w = in.w; if (!a.e) fp[in.dst] = C(sext64(a.c, w) < 0 ? (0 - a.c) & maskw(w) : a.c); else fp[in.dst] = V(mkIte(mkBin(K_SLT, a.e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), a.e), a.e)); fr->pc++; break; }
    case OP_SAT: { Val a = R(in.a), b = R(in.b); unsigned w = in.w; Expr *x = E(a, w), *y = E(b, w);
      if (in.sub == 0) fp[in.dst] = V(mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y)));
      else { Expr *r = mkBin(K_ADD, x, y); fp[in.dst] = V(mkIte(mkBin(K_ULT, r, x), mkConst(~0ull, w), r)); }
      fr->pc++; break; }
    case OP_CTLZ: case OP_CTTZ: case OP_CTPOP: case OP_BITREV: { 
      Val &av = R(in.a); unsigned w = in.w;
      if (av.e && w <= 64 && in.op != OP_BITREV) {
        Expr *a = av.e, *r;
        if (in.op == OP_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(a, i, 1), w)); }
        else if (in.op == OP_CTLZ) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); }
        else { r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); }
        fp[in.dst] = V(r); fr->pc++; break;
      }
      uint64_t a = conc(s, R(in.a), w), r = 0;
      if (in.op == OP_CTPOP) r = __builtin_popcountll(a); else if (in.op == OP_CTLZ) r = a ? __builtin_clzll(a) - (64 - w) : w; else if (in.op == OP_CTTZ) r = a ? __builtin_ctzll(a) : w;
      else for (unsigned i = 0; i < w; i++) if (a >> i & 1) r |= 1ull << (w - 1 - i);
      fp[in.dst] = C(r); fr->pc++; break; }
    case OP_BSWAP: { Val a = R(in.a); unsigned n = in.w / 8; if (!a.e) { uint64_t r = 0; for (unsigned i = 0; i < n; i++) r |= ((a.c >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); fp[in.dst] = C(r); }
      else { Expr *r = nullptr; for (unsigned i = 0; i < n; i++) { Expr *b = mkExtract(a.e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } fp[in.dst] = V(r); } fr->pc++; break; }
    case OP_FSH: { unsigned w = in.w; uint64_t k = conc(s, R(in.c), w) % w; Val a = R(in.a), b = R(in.b);
      Expr *x = E(a, w), *y = E(b, w); if (in.sub) k = w - k; // fshr by k = fshl by w-k (k==w: returns y)
      if (k == w) fp[in.dst] = b; else if (k == 0) fp[in.dst] = a;
      else fp[in.dst] = V(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)));
      fr->pc++; break; }
    case OP_MEMCPY: { Val d = R(in.a), sr = R(in.b), n = R(in.c); conc(s, n, in.n); conc(s, d, 64); conc(s, sr, 64); copyMem(s, d.c, sr.c, n.c); fr->pc++; break; }
    case OP_MEMSET: { Val d = R(in.a), v = R(in.b), n = R(in.c); conc(s, n, in.n); conc(s, d, 64); setMem(s, d.c, v, n.c); fr->pc++; break; }
    case OP_FUN1: {
      if (in.w == 80 && in.n == 1 && !R(in.a).e && R(in.a).c < g_ld.size()) {
        long double x = g_ld[R(in.a).c];
        switch ((unsigned)in.imm) { case Intrinsic::fabs: x = fabsl(x); break; case Intrinsic::floor: x = floorl(x); break; case Intrinsic::ceil: x = ceill(x); break; case Intrinsic::sqrt: x = sqrtl(x); break; case Intrinsic::trunc: x = truncl(x); break; default: goto unsupported; }
        fp[in.dst] = C(ldNew(x)); fr->pc++; break; }
      if (in.w > 64) goto unsupported;
      if (in.w == 64 && R(in.a).e && fpIs(R(in.a).e)) { Expr *x = R(in.a).e, *e = nullptr;
        switch ((unsigned)in.imm) { case Intrinsic::floor: e = fpRound(x, 0); break; case Intrinsic::ceil: e = fpRound(x, 1); break; case Intrinsic::trunc: e = fpRound(x, 2); break; case Intrinsic::round: e = fpRound(x, 3); break;
        case Intrinsic::fabs: { Expr *c = fpNonNeg(x); if (c) { bool side = true; if (c->k == K_CONST) side = c->c; else { State *o; side = branch(s, c, &o); } e = side ? x : fpNeg(x); } break; }
        case Intrinsic::fmuladd: e = fpBin(FP_MUL, x, E(R(in.b), 64)); if (e) e = fpBin(FP_ADD, e, E(R(in.c), 64)); break;
        default: break; }
        if (e) { fp[in.dst] = V(e); fr->pc++; break; } }
      uint64_t a = conc(s, R(in.a), in.w); double x = fval(a, in.w), r; double y = 0, z = 0;
      if (in.n > 1) { if (in.imm == Intrinsic::powi || in.imm == Intrinsic::ldexp) y = (double)(int32_t)conc(s, R(in.b), 32); else y = fval(conc(s, R(in.b), in.w), in.w); }
      if (in.n > 2) z = fval(conc(s, R(in.c), in.w), in.w);
      switch ((unsigned)in.imm) {
      case Intrinsic::fabs: r = fabs(x); break; case Intrinsic::floor: r = floor(x); break; case Intrinsic::ceil: r = ceil(x); break; case Intrinsic::sqrt: r = sqrt(x); break; case Intrinsic::trunc: r = trunc(x); break; case Intrinsic::round: r = round(x); break;
      case Intrinsic::rint: case Intrinsic::nearbyint: r = rint(x); break; case Intrinsic::log: r = log(x); break; case Intrinsic::log2: r = log2(x); break; case Intrinsic::log10: r = log10(x); break; case Intrinsic::exp: r = exp(x); break; case Intrinsic::exp2: r = exp2(x); break;
      case Intrinsic::pow: case Intrinsic::powi: r = pow(x, y); break; case Intrinsic::maxnum: r = fmax(x, y); break; case Intrinsic::minnum: r = fmin(x, y); break; case Intrinsic::copysign: r = copysign(x, y); break; case Intrinsic::fmuladd: r = x * y + z; break; case Intrinsic::fma: r = fma(x, y, z); break; case Intrinsic::ldexp: r = ldexp(x, (int)y); break;
      default: goto unsupported;
      }
      fp[in.dst] = C(fenc(r, in.w)); fr->pc++; break; }
    case OP_TLSADDR: {
      Thread &t = s.th[s.cur]; const void *g = in.x; uint64_t a = 0;
      for (auto &p : t.tls) if (p.first == g) a = p.second;
      if (!a) {
        auto *gv = cast<GlobalVariable>((Value *)g);
        a = alloc(s, DL->getTypeAllocSize(gv->getValueType()), OK_TLS, 0);
        if (gv->hasInitializer()) { Obj *o = s.mem.wlookup(a >> 32); initConst(s, o, gv->getInitializer(), 0); }
        s.th[s.cur].tls.push_back({g, a});
      }
      fp[in.dst] = C(a); fr->pc++; break; }
    case OP_TYPEID: fp[in.dst] = C((in.imm >> 32) & 0x7fffffff); fr->pc++; break;
    case OP_VASTART: {
      Thread &t = s.th[s.cur]; uint64_t ap = conc(s, R(in.a), 64); size_t n = t.varargs.size() - fr->vabase;
      uint64_t area = alloc(s, n * 8 + 8, OK_STACK, 0); t.allocas.push_back(area >> 32);
      for (size_t i = 0; i < n; i++) store(s, area + 8 * i, t.varargs[fr->vabase + i], 64);
      store32(s, ap, 48); store32(s, ap + 4, 176); store64(s, ap + 8, area); store64(s, ap + 16, 0); fr->pc++; break; }
    default:
    unsupported:
      { std::string w = where(s); incomplete(s, "unsupported instruction in " + fr->fn->name + (in.x && in.op == OP_UNSUPPORTED ? " " + ((Function *)in.x)->getName().str() : "")); endPath(s, false); }
    }
  }
}

// ---------------- top level ----------------
static int jsfd = -1;
bool Interp::takeToken(bool block) {
  if (jsfd < 0) { if (block) return true; int w = sh->workers.load(); while (w < opt.maxWorkers) if (sh->workers.compare_exchange_weak(w, w + 1)) return true; return false; }
  char c; 
  for (;;) { ssize_t r = read(jsfd, &c, 1); if (r == 1) { sh->workers++; return true; } if (!block) return false; usleep(20000); if (now() - g_start > opt.deadline) return false; }
}
void Interp::putToken() { sh->workers--; if (jsfd >= 0) { char c = 'x'; (void)!write(jsfd, &c, 1); } }
static uint64_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / (1 << 20); }
static bool isChild = false; static std::vector<pid_t> kids; static uint64_t baseRss = 0;
static void mergeStats(Interp &I) {
  I.sh->queries += g_ss.queries; I.sh->table += g_ss.table; I.sh->order += g_ss.order; I.sh->cacheHits += g_ss.cacheHits; I.sh->sat += g_ss.sat; I.sh->unsat += g_ss.unsat; I.sh->unknown += g_ss.unknown; I.sh->ns += g_ss.ns;
  uint64_t m = I.sh->maxns; if (g_ss.maxns > m) I.sh->maxns = g_ss.maxns;
  g_ss = SolverStats();
}
void Interp::maybeSplit() {
  if (rssMB() > opt.memMB && !work.empty()) { // drop pending states: reported as not covered
    sh->memout++; sh->incomplete += work.size(); for (auto *w : work) delete w; work.clear(); return;
  }
  if (work.empty() || !takeToken(false)) return;
  fflush(nullptr);
  size_t half = (work.size() + 1) / 2;
  pid_t p = fork();
  if (p < 0) { putToken(); return; }
  if (p == 0) {
    isChild = true; kids.clear(); g_ss = SolverStats(); sh->workersTotal++;
    std::vector<State *> w(work.begin(), work.begin() + half); work.swap(w);
    throw (int)1; // unwinds run(): abandon the state the parent keeps
  }
  kids.push_back(p);
  for (size_t i = 0; i < half; i++) delete work[i];
  work.erase(work.begin(), work.begin() + half);
}
void Interp::runAll() {
  double lastSplit = 0;
  while (!work.empty()) {
    if (sh->stop) break;
    double t = now();
    if (t - g_start > opt.deadline) { sh->timedout = 1; break; }
    if (work.size() >= 2 && t - lastSplit > 0.005) { lastSplit = t; try { maybeSplit(); } catch (int) { continue; } if (work.empty()) break; }
    State *s = work.back(); work.pop_back();
    try { run(*s); sh->paths++; }
    catch (PathEnd &) { sh->paths++; }
    catch (int) { continue; } // in the forked worker: s belongs to the parent
    delete s;
  }
  if (!work.empty()) { sh->states += work.size(); }
  sh->exprs += g_numExprs;
}
void Interp::init(Module *m) {
  M = m; DL = &m->getDataLayout();
  regNatives();
}

int main(int argc, char **argv) {
  g_start = now();
  Options opt; std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--time") opt.deadline = std::stod(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--jobserver") opt.jobserver = nx(); else if (a == "-j") opt.maxWorkers = std::stoi(nx());
    else if (a == "--rlimit") opt.rlimit = std::stoul(nx()); else if (a == "--max-viol") opt.maxViol = std::stoi(nx()); else if (a == "--samples") opt.samples = std::stoi(nx()); else if (a == "-v") opt.verbose = true;
    else if (a == "--path-instrs") opt.pathInstrLimit = std::stoull(nx()); else if (a == "--mem") opt.memMB = std::stoull(nx()); else if (a == "--spurious") opt.spurious = true;
    else bc = a;
  }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared));
  if (!opt.jobserver.empty()) { jsfd = open(opt.jobserver.c_str(), O_RDWR | O_NONBLOCK); if (jsfd < 0) { perror("jobserver"); return 3; } }
  Interp I; I.opt = opt; I.sh = sh;
  if (jsfd >= 0) I.takeToken(true); else sh->workers = 1;
  g_start = now(); // waiting for a token is not exploration time
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(bc, err, C);
  if (!m) { err.print(argv[0], errs()); return 3; }
  solverInit(opt.rlimit); g_solverDeadline = g_start + opt.deadline + 3;
  I.init(m.get());
  State *s = new State; s->th.resize(1);
  I.allocGlobals(*s);
  Function *mf = m->getFunction("sx_start"); if (!mf) { fprintf(stderr, "no sx_start\n"); return 3; }
  // static constructors, in priority order, are called by the engine before sx_start
  std::vector<std::pair<unsigned, Function *>> ctors;
  if (auto *g = m->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  std::vector<Val> none;
  I.pushFrame(*s, I.info(mf), nullptr, none, nullptr);
  for (int i = (int)ctors.size() - 1; i >= 0; i--) I.pushFrame(*s, I.info(ctors[i].second), nullptr, none, nullptr);
  I.work.push_back(s);
  double prep = now() - g_start;
  I.runAll();
  mergeStats(I);
  I.putToken();
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->incomplete++; sh->memout++; if (jsfd >= 0) { I.putToken(); } else sh->workers--; fprintf(stderr, "worker died: status %x\n", st); } }
  if (isChild) { fflush(nullptr); _exit(0); }
  // report
  std::string out = opt.out + "/result.json"; FILE *f = fopen(out.c_str(), "w");
  auto U = [](std::atomic<uint64_t> &x) { return (unsigned long long)x.load(); };
  fprintf(f, "{\"paths\":%llu,\"completed\":%llu,\"aborted\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"table\":%llu,\"order\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"concretizations\":%llu,\"incomplete\":%llu,\"abandoned\":%llu,\"sched_points\":%llu,\"violations\":%d,\"timedout\":%d,\"memout\":%d,\"asserts\":%llu,\"assert_queries\":%llu,\"max_path_instrs\":%llu,\"exprs\":%llu,\"samples\":%d,\"wall_s\":%.2f,\"prep_s\":%.2f,\"workers\":%llu,",
    U(sh->paths), U(sh->completed), U(sh->aborted), U(sh->forks), U(sh->instrs), U(sh->queries), U(sh->table), U(sh->order), U(sh->cacheHits), U(sh->sat), U(sh->unsat), U(sh->unknown), sh->ns.load() * 1e-9, sh->maxns.load() * 1e-9, U(sh->concretizations), U(sh->incomplete), U(sh->states), U(sh->schedPoints), sh->viol.load(), sh->timedout.load(), sh->memout.load(), U(sh->asserts), U(sh->assertQueries), U(sh->maxInstr), U(sh->exprs), std::min(sh->replaySeq.load(), opt.samples), now() - g_start, prep, U(sh->workersTotal) + 1);
  fprintf(f, "\"cover\":{"); for (int i = 0; i < sh->ncover; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", sh->coverName[i], U(sh->cover[i])); 
  auto esc = [](std::string s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
  fprintf(f, "},\"unsupported\":{"); for (int i = 0; i < sh->nunsup; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", esc(sh->unsupName[i]).c_str(), U(sh->unsup[i]));
  fprintf(f, "},\"functions\":["); bool first = true;
  for (auto *fi : I.fns) if (fi->index < 65536 && sh->fnHit[fi->index] && !fi->nat && !fi->external) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(fi->name).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  fprintf(stderr, "paths %llu completed %llu aborted %llu forks %llu instrs %llu queries %llu (cached %llu) solver %.2fs incomplete %llu viol %d wall %.2f%s\n", U(sh->paths), U(sh->completed), U(sh->aborted), U(sh->forks), U(sh->instrs), U(sh->queries), U(sh->cacheHits), sh->ns.load() * 1e-9, U(sh->incomplete), sh->viol.load(), now() - g_start, sh->timedout ? " TIMEOUT" : "");
  fflush(nullptr);
  _exit(sh->viol ? 1 : (sh->incomplete || sh->timedout || sh->memout) ? 2 : 0);
}
