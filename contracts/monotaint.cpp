// Contracts: the taint analysis of the monotone framework
// (lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp).
//
// The incoming facts are an arbitrary subset of the values involved; the taint
// configuration is arbitrary; call sites and bodies are fabricated with at
// most two formals and two callees.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfo.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"

template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;
template class psr::TaintConfigBase<psr::LLVMTaintConfig>;

using namespace psr;
using llvm::Value;
using V = const Value *;
using N = const llvm::Instruction *;
using Set = std::set<V>;
using Facts = BitVectorSet<V>;

namespace {
llvm::StringRef fakeName(V) { return "f"; }

struct Fx {
  pv::ir::World W;
  LLVMTaintConfig TC{{}, {}, {}};
  InterMonoTaintAnalysis A{nullptr, nullptr, nullptr, nullptr, TC, {}};
  llvm::IntegerType *I32;
  llvm::Type *P;
  V Vals[6] = {};
  bool In[6] = {};
  unsigned Num = 0;
  Fx() {
    pv::replace(&Value::getName, &fakeName);
    I32 = W.intTy(32);
    P = W.ptrTy(I32);
  }
  Value *add(Value *X) {
    for (unsigned I = 0; I < Num; ++I)
      if (Vals[I] == X)
        return X;
    Vals[Num++] = X;
    return X;
  }
  Facts facts() {
    Facts F;
    for (unsigned I = 0; I < Num; ++I)
      if ((In[I] = pv::flip("tainted")))
        F.insert(Vals[I]);
    return F;
  }
  bool in(V X) {
    for (unsigned I = 0; I < Num; ++I)
      if (Vals[I] == X)
        return In[I];
    return false;
  }
  void is(const Facts &Got, const Set &Want, const char *L) {
    bool Eq = Got.size() == Want.size();
    for (V X : Want)
      Eq = Eq && Got.count(X);
    pv::ensures(Eq, L);
  }
  Set all() {
    Set S;
    for (unsigned I = 0; I < Num; ++I)
      if (In[I])
        S.insert(Vals[I]);
    return S;
  }
};
} // namespace

PVC_CONTRACT(mono_normal) {
  Fx F;
  Value *A = F.add(F.W.arg(F.P)), *B = F.add(F.W.arg(F.P));
  F.add(F.W.arg(F.P));
  static const unsigned Casts[] = {llvm::Instruction::BitCast,
                                   llvm::Instruction::Trunc};
  llvm::Instruction *I;
  unsigned Kind = pv::choose(5, "statement");
  switch (Kind) {
  case 0:
    I = F.W.inst(llvm::Instruction::Store, F.W.voidTy(), {A, B});
    break;
  case 1:
    I = F.W.inst(llvm::Instruction::Load, F.P, {A});
    break;
  case 2:
    I = F.W.gep(F.I32, F.I32, {A, F.W.constInt(F.I32, 0)});
    break;
  case 3:
    I = F.W.inst(Casts[pv::choose(2, "cast")], F.P, {A});
    break;
  default:
    I = F.W.inst(llvm::Instruction::Fence, F.P, {A});
  }
  F.add(I);
  Facts In = F.facts();
  Facts Out = F.A.normalFlow(I, In);
  Set Want = F.all();
  if (Kind == 0) {
    if (F.in(A))
      Want.insert(B);
    else
      Want.erase(B);
  } else if (Kind < 4 && F.in(A))
    Want.insert(I);
  F.is(Out, Want, "a tainted value taints what it is stored to, and what is "
                  "loaded, addressed or cast from it; storing an untainted "
                  "value overwrites; all other taints stay");
}

namespace {
struct Call : Fx {
  uint64_t NP;
  llvm::Function *Fn[2];
  llvm::CallInst *CS;
  Value *Args[2];
  bool Ptr[2];
  Call() {
    NP = pv::choose(3, "formals");
    pv_note_bounded_("calls with at most two formals");
    llvm::Type *Ps[2];
    for (uint64_t I = 0; I < NP; ++I)
      Ps[I] = (Ptr[I] = pv::flip("pointer")) ? P : I32;
    auto *FT = W.fnTy(P, Ps, NP);
    for (auto &X : Fn)
      X = W.func(FT, 0, true);
    for (uint64_t I = 0; I < NP; ++I)
      Args[I] = I == 1 && Ptr[0] == Ptr[1] && pv::flip("duplicate actual")
                    ? Args[0]
                    : W.arg(Ps[I]);
    CS = W.call(FT, Fn[0], Args, NP);
  }
};
} // namespace
PVC_CONTRACT(mono_call) {
  Call C;
  for (uint64_t I = 0; I < C.NP; ++I)
    C.add(C.Args[I]);
  C.add(C.W.arg(C.P));
  Facts In = C.facts();
  Set Want;
  for (uint64_t I = 0; I < C.NP; ++I)
    if (C.in(C.Args[I]))
      Want.insert(C.Fn[0]->getArg(I));
  C.is(C.A.callFlow(C.CS, C.Fn[0], In), Want,
       "the callee gets the formals of the tainted actuals");
}
PVC_CONTRACT(mono_return) {
  Call C;
  for (uint64_t I = 0; I < C.NP; ++I)
    C.add(C.Fn[0]->getArg(I));
  auto *Def = C.add(C.W.alloca_(C.P, C.W.constInt(C.I32, 1)));
  Value *RV = nullptr;
  llvm::Instruction *Exit;
  switch (pv::choose(4, "exit")) {
  case 0:
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {});
    break;
  case 1:
    RV = C.NP ? static_cast<Value *>(C.Fn[0]->getArg(0)) : Def;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  case 2:
    RV = Def;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  default:
    Exit = C.W.inst(llvm::Instruction::Resume, C.W.voidTy(), {Def});
  }
  Facts In = C.facts();
  Set Want;
  if (RV && C.in(RV))
    Want.insert(C.CS);
  for (uint64_t I = 0; I < C.NP; ++I)
    if (C.Ptr[I] && C.in(C.Fn[0]->getArg(I)))
      Want.insert(C.Args[I]);
  C.is(C.A.returnFlow(C.CS, C.Fn[0], Exit, nullptr, In), Want,
       "the caller gets the actuals of the tainted pointer formals and the "
       "tainted result");
}
PVC_CONTRACT(mono_call_to_ret) {
  Call C;
  for (uint64_t I = 0; I < C.NP; ++I)
    C.add(C.Args[I]);
  auto *Local = C.add(C.W.arg(C.P));
  size_t Num = pv::choose(3, "callees");
  pv_note_bounded_("call sites with at most two callees");
  llvm::ArrayRef<const llvm::Function *> Cs;
  const llvm::Function *CsBuf[2] = {C.Fn[0], C.Fn[1]};
  Cs = {CsBuf, Num};
  bool AllEntered = Num != 0;
  for (size_t I = 0; I < Num; ++I)
    if (pv::flip("defined"))
      C.W.block(C.Fn[I]);
    else
      AllEntered = false;
  Set Gen, Leak, Kill[2];
  if (Num && C.NP) {
    // the first formal of each callee has a role
    for (size_t K = 0; K < Num; ++K) {
      auto Cat = TaintCategory(pv::choose(4, "category"));
      C.TC.addTaintCategory(C.Fn[K]->getArg(0), Cat);
      if (Cat == TaintCategory::Source)
        Gen.insert(C.Args[0]);
      if (Cat == TaintCategory::Sink)
        Leak.insert(C.Args[0]);
      if (Cat == TaintCategory::Sanitizer)
        Kill[K].insert(C.Args[0]);
    }
  }
  if (Num && pv::flip("result is a source")) {
    C.TC.addSourceValue(C.CS);
    Gen.insert(C.CS);
  }
  Facts In = C.facts();
  Facts Out = C.A.callToRetFlow(C.CS, nullptr, Cs, In);
  Set Want = C.all();
  // sanitized iff every callee sanitizes
  bool San = Num && !Kill[0].empty() && (Num == 1 || !Kill[1].empty());
  if (San)
    Want.erase(C.Args[0]);
  Want.insert(Gen.begin(), Gen.end());
  if (Gen.empty() && !San && AllEntered)
    for (uint64_t I = 0; I < C.NP; ++I)
      if (C.Ptr[I])
        Want.erase(C.Args[I]);
  C.is(Out, Want,
       "a call generates what a callee generates, kills what every callee "
       "sanitizes, and passes on all other taints but those of pointer "
       "arguments, which go through the callees unless one is unknown");
  auto It = C.A.getAllLeaks().find(C.CS);
  bool Rep = It != C.A.getAllLeaks().end() && !It->second.empty();
  V Arg0 = C.NP ? C.Args[0] : nullptr;
  pv::ensures(Rep == (!Leak.empty() && C.in(Arg0)) &&
                  (!Rep || (It->second.size() == 1 && It->second.count(Arg0))),
              "a tainted argument of a sink is reported as a leak at the call, "
              "nothing else is");
  (void)Local;
}
PVC_CONTRACT(mono_merge) {
  Fx F;
  F.add(F.W.arg(F.P));
  F.add(F.W.arg(F.P));
  F.add(F.W.arg(F.P));
  Facts A = F.facts();
  Set SA = F.all();
  Facts B = F.facts();
  Set Both = F.all();
  bool Eq = SA == Both;
  Both.insert(SA.begin(), SA.end());
  F.is(F.A.merge(A, B), Both, "merging unites the taints");
  pv::ensures(F.A.equal_to(A, B) == Eq, "equality compares the taints");
}
