#include "engine.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/DebugInfo.h>
namespace sx {

unsigned Engine::bitsOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  return 0;
}
void Engine::flat(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *SL = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, out);
  } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    unsigned eb = bitsOf(V->getElementType());
    for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back({eb, (uint32_t)(off + i * ((eb + 7) / 8))});
  } else if (!T->isVoidTy()) {
    out.push_back({bitsOf(T), (uint32_t)off});
  }
}

uint64_t Engine::constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getValue().getRawData()[0] & maskw(std::min(64u, CI->getBitWidth()));
  if (auto *CF = dyn_cast<ConstantFP>(C)) return CF->getValueAPF().bitcastToAPInt().getRawData()[0];
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto *G = dyn_cast<GlobalValue>(C)) {
    if (auto *GA = dyn_cast<GlobalAlias>(G)) return constVal(GA->getAliasee());
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    fprintf(stderr, "no address for %s\n", G->getName().str().c_str());
    return 0;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(CE);
      APInt off(64, 0);
      if (!G->accumulateConstantOffset(DL, off)) return 0;
      return constVal(cast<Constant>(G->getPointerOperand())) + off.getZExtValue();
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return constVal(CE->getOperand(0)) & maskw(std::min(64u, std::max(1u, bitsOf(CE->getType()))));
    case Instruction::Trunc: return constVal(CE->getOperand(0)) & maskw(bitsOf(CE->getType()));
    case Instruction::Sub: return (constVal(CE->getOperand(0)) - constVal(CE->getOperand(1))) & maskw(bitsOf(CE->getType()));
    case Instruction::Add: return (constVal(CE->getOperand(0)) + constVal(CE->getOperand(1))) & maskw(bitsOf(CE->getType()));
    case Instruction::ICmp: {
      uint64_t a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1));
      switch ((CmpInst::Predicate)CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
      return 0;
    }
    default: fprintf(stderr, "constexpr opcode %s\n", CE->getOpcodeName()); return 0;
    }
  }
  fprintf(stderr, "constVal: unknown constant kind\n");
  return 0;
}
void Engine::constLeaves(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    uint64_t n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (uint64_t i = 0; i < n; i++) {
      if (Constant *E = C->getAggregateElement((unsigned)i)) constLeaves(E, out);
      else { std::vector<Leaf> l; flat(T, 0, l); while (out.size() % std::max<size_t>(1, l.size())) out.push_back({0, nullptr}); return; }
    }
  } else out.push_back({constVal(C), nullptr});
}
int Engine::constPool(const Constant *C) {
  auto it = poolIdx.find(C);
  if (it != poolIdx.end()) return it->second;
  int idx = pool.size();
  std::vector<Val> l; constLeaves(C, l);
  if (l.empty()) l.push_back({0, nullptr});
  for (auto &v : l) pool.push_back(v);
  return poolIdx[C] = -(idx + 1);
}
void Engine::writeConst(Obj *o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = CD->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL.getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) writeConst(o, off + SL->getElementOffset(i), S->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(C)) {
    uint64_t es = DL.getTypeAllocSize(T->getArrayElementType());
    for (unsigned i = 0; i < C->getNumOperands(); i++) writeConst(o, off + i * es, cast<Constant>(C->getOperand(i)));
    return;
  }
  if (isa<ConstantVector>(C)) {
    uint64_t es = DL.getTypeAllocSize(cast<VectorType>(T)->getElementType());
    for (unsigned i = 0; i < C->getNumOperands(); i++) writeConst(o, off + i * es, cast<Constant>(C->getOperand(i)));
    return;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    memcpy(o->data + off, CI->getValue().getRawData(), (CI->getBitWidth() + 7) / 8); return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APInt b = CF->getValueAPF().bitcastToAPInt(); memcpy(o->data + off, b.getRawData(), b.getBitWidth() / 8); return;
  }
  uint64_t v = constVal(C); unsigned n = (bitsOf(T) + 7) / 8; memcpy(o->data + off, &v, n);
}
void Engine::initGlobals(State &s) {
  s.alloc(0, OK_EXTERN, 0); // object 0: null
  for (auto &F : M) { uint32_t id = s.alloc(1, OK_FUNC, 0); gaddr[&F] = (uint64_t)id << 32; funcByObj[id] = &F; s.get(id)->ro = true; }
  for (auto &G : M.globals()) {
    uint64_t sz = G.hasInitializer() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 256;
    if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used") continue;
    uint32_t id = s.alloc(sz, G.hasInitializer() ? OK_GLOBAL : OK_EXTERN, 0);
    s.get(id)->name = new std::string(G.getName().str());
    gaddr[&G] = (uint64_t)id << 32;
  }
  for (auto &G : M.globals()) {
    auto it = gaddr.find(&G);
    if (it == gaddr.end() || !G.hasInitializer()) continue;
    Obj *o = s.get(it->second >> 32);
    writeConst(o, 0, G.getInitializer());
    if (G.isConstant()) o->ro = true;
  }
}

FuncInfo *Engine::info(Function *F) {
  auto &r = finfo[F];
  if (r) return r;
  r = new FuncInfo(); r->F = F; r->name = F->getName().str(); r->nounwind = F->doesNotThrow();
  r->bi = findBuiltin(r->name);
  return r;
}

static uint8_t binSub(unsigned opc) {
  switch (opc) {
  case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
  case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
  case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
  case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
  case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; case Instruction::FRem: return FREM;
  }
  return 255;
}

void Engine::decode(FuncInfo *fi) {
  fi->decoded = true;
  Function *F = fi->F;
  std::unordered_map<const Value *, int> slot;
  int ns = 0;
  for (auto &A : F->args()) { int n = slots(A.getType()); fi->argSlots.push_back(ns); fi->argN.push_back(n); slot[&A] = ns; ns += n; }
  for (auto &BB : *F) for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += slots(I.getType()); }
  fi->nslots = ns;
  auto opnd = [&](const Value *V) -> int {
    if (auto *C = dyn_cast<Constant>(V)) return constPool(C);
    auto it = slot.find(V);
    if (it != slot.end()) return it->second;
    static Val z{0, nullptr}; int idx = pool.size(); pool.push_back(z); return -(idx + 1);
  };
  std::unordered_map<const BasicBlock *, int> bbpc;
  std::vector<std::pair<int, const BasicBlock *>> fix;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
    int ei = fi->edges.size(); fi->edges.emplace_back(); Edge &e = fi->edges.back();
    for (auto &P : to->phis()) {
      int n = slots(P.getType()); int d = slot[&P]; const Value *v = P.getIncomingValueForBlock(from); int so = opnd(v);
      for (int k = 0; k < n; k++) e.moves.push_back({d + k, so >= 0 ? so + k : so - k});
    }
    fix.push_back({ei, to});
    return ei;
  };
  for (auto &BB : *F) {
    bbpc[&BB] = fi->code.size();
    for (auto &I : BB) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.I = &I;
      Type *T = I.getType();
      if (!T->isVoidTy()) in.dst = slot[&I];
      auto vecInfo = [&](Type *X, uint16_t &lanes, uint8_t &w) {
        if (auto *V = dyn_cast<FixedVectorType>(X)) { lanes = V->getNumElements(); w = bitsOf(V->getElementType()); }
        else { lanes = 1; unsigned b = bitsOf(X); if (b > 64 || b == 0) return false; w = b; }
        return w != 0;
      };
      bool ok = true;
      if (auto *B = dyn_cast<BinaryOperator>(&I)) {
        in.op = I_BIN; in.sub = binSub(B->getOpcode()); ok = vecInfo(T, in.lanes, in.w); in.a = opnd(B->getOperand(0)); in.b = opnd(B->getOperand(1));
      } else if (isa<UnaryOperator>(I) && I.getOpcode() == Instruction::FNeg) {
        in.op = I_FNEG; ok = vecInfo(T, in.lanes, in.w); in.a = opnd(I.getOperand(0));
      } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
        in.op = I_ICMP; in.sub = C->getPredicate(); ok = vecInfo(C->getOperand(0)->getType(), in.lanes, in.w); in.a = opnd(C->getOperand(0)); in.b = opnd(C->getOperand(1));
      } else if (auto *C = dyn_cast<FCmpInst>(&I)) {
        in.op = I_FCMP; in.sub = C->getPredicate(); ok = vecInfo(C->getOperand(0)->getType(), in.lanes, in.w); in.a = opnd(C->getOperand(0)); in.b = opnd(C->getOperand(1));
      } else if (auto *S = dyn_cast<SelectInst>(&I)) {
        in.op = I_SELECT; std::vector<Leaf> l; flat(T, 0, l); in.lanes = l.size(); in.w = l.empty() ? 0 : l[0].bits; in.a = opnd(S->getCondition()); in.b = opnd(S->getTrueValue()); in.c = opnd(S->getFalseValue());
        in.sub = S->getCondition()->getType()->isVectorTy(); leafs.push_back(l); in.x = leafs.size() - 1;
      } else if (auto *C = dyn_cast<CastInst>(&I)) {
        uint16_t l2; in.a = opnd(C->getOperand(0));
        if (C->getOpcode() == Instruction::BitCast) {
          std::vector<Leaf> ls, ld; flat(C->getOperand(0)->getType(), 0, ls); flat(T, 0, ld);
          in.op = I_BITCAST; in.lanes = ld.size(); in.w = ld[0].bits; in.sw = ls[0].bits; in.b = ls.size();
          ok = in.w && in.sw;
        } else {
          in.op = I_CAST; in.sub = C->getOpcode(); ok = vecInfo(T, in.lanes, in.w) && vecInfo(C->getOperand(0)->getType(), l2, in.sw);
        }
      } else if (isa<FreezeInst>(I)) {
        in.op = I_COPY; in.lanes = slots(T); in.a = opnd(I.getOperand(0));
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        in.op = I_LOAD; in.a = opnd(L->getPointerOperand()); std::vector<Leaf> l; flat(T, 0, l); in.lanes = l.size(); for (auto &x : l) if (!x.bits || x.bits > 64) ok = false;
        in.w = l.empty() ? 0 : l[0].bits; leafs.push_back(l); in.x = leafs.size() - 1;
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        in.op = I_STORE; in.a = opnd(S->getPointerOperand()); in.b = opnd(S->getValueOperand()); std::vector<Leaf> l; flat(S->getValueOperand()->getType(), 0, l); in.lanes = l.size();
        for (auto &x : l) if (!x.bits || x.bits > 64) ok = false;
        in.w = l.empty() ? 0 : l[0].bits; leafs.push_back(l); in.x = leafs.size() - 1;
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        in.op = I_GEP; in.a = opnd(G->getPointerOperand()); GepInfo gi; gi.off = 0;
        if (T->isVectorTy()) ok = false;
        else for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *ST = it.getStructTypeOrNull()) { gi.off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else {
            int64_t sc = it.getSequentialElementStride(DL);
            if (auto *CI = dyn_cast<ConstantInt>(ix)) gi.off += CI->getSExtValue() * sc;
            else gi.terms.push_back({opnd(ix), bitsOf(ix->getType()), sc});
          }
        }
        geps.push_back(gi); in.x = geps.size() - 1;
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        in.op = I_ALLOCA; in.a = opnd(A->getArraySize()); in.w = bitsOf(A->getArraySize()->getType()); in.x = (int)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        in.op = I_CALL; CallInfo ci;
        if (C->isInlineAsm()) { ci.name = "<asm>"; ci.resolved = true; ci.bi = &Engine::bi_nop; }
        else {
        Value *cv = C->getCalledOperand()->stripPointerCastsAndAliases();
        ci.callee = dyn_cast<Function>(cv);
        if (!ci.callee) ci.calleeOp = opnd(cv);
        else { ci.name = ci.callee->getName().str(); ci.intr = ci.callee->getIntrinsicID(); }
        }
        for (unsigned i = 0; i < C->arg_size(); i++) {
          Value *av = C->getArgOperand(i); ArgInfo ai; ai.byval = 0;
          if (av->getType()->isMetadataTy()) { ai.op = 0; ai.n = 0; ai.w = 0; ci.args.push_back(ai); continue; }
          ai.op = opnd(av); ai.n = slots(av->getType()); std::vector<Leaf> l; flat(av->getType(), 0, l); ai.w = l.empty() ? 0 : l[0].bits;
          if (C->isByValArgument(i)) ai.byval = DL.getTypeAllocSize(C->getParamByValType(i));
          ci.args.push_back(ai);
        }
        std::vector<Leaf> l; flat(T, 0, l); ci.retN = l.size(); for (auto &x : l) ci.retW.push_back(x.bits);
        in.w = l.empty() ? 0 : l[0].bits; in.lanes = l.size();
        ci.nounwind = C->doesNotThrow();
        if (auto *IV = dyn_cast<InvokeInst>(C)) { ci.normal = mkEdge(&BB, IV->getNormalDest()); ci.unwind = mkEdge(&BB, IV->getUnwindDest()); }
        calls.push_back(ci); in.x = calls.size() - 1;
        if (isa<CallBrInst>(C)) ok = false;
      } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
        in.op = I_RET; if (R->getReturnValue()) { in.a = opnd(R->getReturnValue()); in.lanes = slots(R->getReturnValue()->getType()); } else in.lanes = 0;
      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { in.op = I_CONDBR; in.a = opnd(B->getCondition()); in.x = mkEdge(&BB, B->getSuccessor(0)); in.x2 = mkEdge(&BB, B->getSuccessor(1)); }
        else { in.op = I_BR; in.x = mkEdge(&BB, B->getSuccessor(0)); }
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        in.op = I_SWITCH; in.a = opnd(S->getCondition()); in.w = bitsOf(S->getCondition()->getType()); SwitchInfo si;
        std::map<const BasicBlock*, int> memo; auto ed = [&](const BasicBlock *t) { auto it = memo.find(t); if (it != memo.end()) return it->second; return memo[t] = mkEdge(&BB, t); };
        for (auto &c : S->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())});
        si.def = ed(S->getDefaultDest()); switches.push_back(si); in.x = switches.size() - 1;
      } else if (isa<UnreachableInst>(I)) in.op = I_UNREACHABLE;
      else if (isa<LandingPadInst>(I)) in.op = I_LANDINGPAD;
      else if (auto *R = dyn_cast<ResumeInst>(&I)) { in.op = I_RESUME; in.a = opnd(R->getValue()); }
      else if (auto *X = dyn_cast<ExtractValueInst>(&I)) {
        Type *ct = X->getAggregateOperand()->getType(); int o = 0;
        for (unsigned ix : X->indices()) {
          if (auto *ST = dyn_cast<StructType>(ct)) { for (unsigned i = 0; i < ix; i++) o += slots(ST->getElementType(i)); ct = ST->getElementType(ix); }
          else { ct = ct->getArrayElementType(); o += ix * slots(ct); }
        }
        int base = opnd(X->getAggregateOperand()); in.op = I_COPY; in.lanes = slots(T); in.a = base >= 0 ? base + o : base - o;
      } else if (auto *X = dyn_cast<InsertValueInst>(&I)) {
        Type *ct = T; int o = 0;
        for (unsigned ix : X->indices()) {
          if (auto *ST = dyn_cast<StructType>(ct)) { for (unsigned i = 0; i < ix; i++) o += slots(ST->getElementType(i)); ct = ST->getElementType(ix); }
          else { ct = ct->getArrayElementType(); o += ix * slots(ct); }
        }
        int base = opnd(X->getAggregateOperand()), v = opnd(X->getInsertedValueOperand()), n = slots(T), vn = slots(X->getInsertedValueOperand()->getType());
        AggInfo ai; for (int k = 0; k < n; k++) { if (k >= o && k < o + vn) { int kk = k - o; ai.srcs.push_back(v >= 0 ? v + kk : v - kk); } else ai.srcs.push_back(base >= 0 ? base + k : base - k); }
        in.op = I_AGG; aggs.push_back(ai); in.x = aggs.size() - 1; in.lanes = n;
      } else if (auto *X = dyn_cast<ExtractElementInst>(&I)) {
        in.op = I_EXTRACTELT; in.a = opnd(X->getVectorOperand()); in.b = opnd(X->getIndexOperand()); in.w = bitsOf(T); in.lanes = cast<FixedVectorType>(X->getVectorOperand()->getType())->getNumElements();
        in.sw = bitsOf(X->getIndexOperand()->getType());
      } else if (auto *X = dyn_cast<InsertElementInst>(&I)) {
        in.op = I_INSERTELT; in.a = opnd(X->getOperand(0)); in.b = opnd(X->getOperand(1)); in.c = opnd(X->getOperand(2)); in.sw = bitsOf(X->getOperand(2)->getType()); in.lanes = cast<FixedVectorType>(T)->getNumElements();
      } else if (auto *X = dyn_cast<ShuffleVectorInst>(&I)) {
        in.op = I_SHUFFLE; in.a = opnd(X->getOperand(0)); in.b = opnd(X->getOperand(1)); ShufInfo si; for (int m : X->getShuffleMask()) si.mask.push_back(m);
        si.na = cast<FixedVectorType>(X->getOperand(0)->getType())->getNumElements(); shufs.push_back(si); in.x = shufs.size() - 1; in.lanes = si.mask.size();
      } else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
        in.op = I_RMW; in.sub = R->getOperation(); in.a = opnd(R->getPointerOperand()); in.b = opnd(R->getValOperand()); in.w = bitsOf(T); ok = in.w;
      } else if (auto *R = dyn_cast<AtomicCmpXchgInst>(&I)) {
        in.op = I_CMPXCHG; in.a = opnd(R->getPointerOperand()); in.b = opnd(R->getCompareOperand()); in.c = opnd(R->getNewValOperand()); in.w = bitsOf(R->getCompareOperand()->getType()); ok = in.w;
      } else if (isa<FenceInst>(I)) in.op = I_NOP;
      else ok = false;
      if (!ok) in.op = I_UNSUPPORTED;
      fi->code.push_back(in);
    }
  }
  for (auto &f : fix) fi->edges[f.first].pc = bbpc[f.second];
}
} // namespace sx
