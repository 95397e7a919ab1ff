// Contracts: what the taint analysis generates, propagates, reports and kills
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp) and what a
// taint configuration says about a call (LLVMTaintConfig, TaintConfigUtilities).
//
// Alias information and the taint configuration are arbitrary; call sites and
// bodies are fabricated with at most two formals and two callees.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"
#include "phasar/PhasarLLVM/Utils/DataFlowAnalysisType.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfo.h"

template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;
template class psr::TaintConfigBase<psr::LLVMTaintConfig>;

namespace psr {
const library_summary::FunctionDataFlowFacts &getLibCSummary();
}
using namespace psr;
using llvm::Value;
using V = const Value *;
using N = const llvm::Instruction *;
using Set = std::set<V>;

namespace {
alignas(16) char ZeroBuf[256];
alignas(16) char IRDBBuf[1024];
const LLVMZeroValue *fakeZero() {
  return reinterpret_cast<const LLVMZeroValue *>(ZeroBuf);
}
V zero() { return LLVMZeroValue::getInstance(); }

const library_summary::FunctionDataFlowFacts *NoFacts;
const library_summary::FunctionDataFlowFacts &fakeLibC() { return *NoFacts; }
library_summary::LLVMFunctionDataFlowFacts
fakeRead(const library_summary::FunctionDataFlowFacts &,
         const LLVMProjectIRDB &) {
  return {};
}
bool SwiftName;
llvm::StringRef fakeName(V) {
  return SwiftName ? "$sSS1poiyS2S_SStFZ" : "f";
}
V SRetCall, SRetFormal;
bool fakeParamAttr(const llvm::CallBase *C, unsigned I,
                   llvm::Attribute::AttrKind K) {
  return C == SRetCall && I == 0 && K == llvm::Attribute::StructRet;
}
bool fakeSRet(const llvm::Argument *A) { return A == SRetFormal; }

struct AnyAlias {
  using n_t = N;
  using v_t = V;
  using Ref = LLVMAliasInfoRef;
  Ref::AliasSetTy Sets[5];
  Ref::AliasSetTy *Box[5];
  V Of[5] = {};
  unsigned Num = 0;
  AnyAlias() {
    for (int I = 0; I < 5; ++I)
      Box[I] = &Sets[I];
  }
  unsigned find(V P) {
    for (unsigned I = 0; I < Num; ++I)
      if (Of[I] == P)
        return I;
    if (Num == 5)
      pv_abort_path_("too many alias sets");
    Of[Num] = P;
    Sets[Num].insert(P);
    return Num++;
  }
  void may(V P, V Q) { Sets[find(P)].insert(Q); }
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept {
    return AliasAnalysisType::Invalid;
  }
  AliasResult alias(v_t, v_t, n_t) { return AliasResult::MayAlias; }
  Ref::AliasSetPtrTy getAliasSet(v_t P, n_t) {
    return Ref::AliasSetPtrTy(&Box[find(P)]);
  }
  std::unique_ptr<Ref::AliasSetTy> getReachableAllocationSites(v_t, bool, n_t) {
    return nullptr;
  }
  bool isInReachableAllocationSites(v_t, v_t, bool, n_t) { return false; }
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(AnyAlias &) {}
  void introduceAlias(v_t, v_t, n_t, AliasResult) {}
  AnalysisProperties getAnalysisProperties() const noexcept {
    return AnalysisProperties::None;
  }
};

struct LeakPrinter : AnalysisPrinterBase<LLVMIFDSAnalysisDomainDefault> {
  unsigned Reports = 0;
  V Last = nullptr;
  void doOnResult(N, V X, BinaryDomain, DataFlowAnalysisType T) override {
    ++Reports;
    Last = X;
    pv::ensures(T == DataFlowAnalysisType::IFDSTaintAnalysis,
                "leaks are reported as results of the taint analysis");
  }
};

void is(const Set &Got, const Set &Want, const char *L) {
  bool Eq = Got.size() == Want.size();
  for (V X : Want)
    Eq = Eq && Got.count(X);
  pv::ensures(Eq, L);
}
/// Want and possibly Opt, but nothing else.
void isOr(const Set &Got, Set Want, V Opt, const char *L) {
  if (Got.count(Opt))
    Want.insert(Opt);
  is(Got, Want, L);
}

struct Env {
  Env() {
    reinterpret_cast<pv::ir::RawValue *>(ZeroBuf)->SubclassID =
        Value::GlobalVariableVal;
    SwiftName = false;
    SRetCall = SRetFormal = nullptr;
    pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
    pv::replace(&getLibCSummary, &fakeLibC);
    pv::replace(&library_summary::readFromFDFF, &fakeRead);
    pv::replace(&Value::getName, &fakeName);
    pv::replace(&llvm::CallBase::paramHasAttr, &fakeParamAttr);
    pv::replace(&llvm::Argument::hasStructRetAttr, &fakeSRet);
  }
};
struct Fx : Env {
  pv::ir::World W;
  AnyAlias AA;
  LLVMTaintConfig TC{{}, {}, {}};
  LeakPrinter Pr;
  IFDSTaintAnalysis A;
  llvm::IntegerType *I32;
  llvm::Type *P;
  Fx()
      : A(reinterpret_cast<const LLVMProjectIRDB *>(IRDBBuf),
          LLVMAliasInfoRef(&AA), &TC, {}, false) {
    A.setAnalysisPrinter(&Pr);
    I32 = W.intTy(32);
    P = W.ptrTy(I32);
  }
  llvm::Instruction *load(Value *Ptr, llvm::Type *T) {
    return W.inst(llvm::Instruction::Load, T, {Ptr});
  }
  llvm::Instruction *slot() {
    return W.alloca_(P, W.constInt(I32, 1));
  }
  /// Enters operand Op of I into the use list of its value.
  void use(llvm::Instruction *I, unsigned Op) {
    auto *R = reinterpret_cast<pv::ir::RawInst *>(I);
    auto *U = reinterpret_cast<pv::ir::RawUse *>(R) - R->NumOps + Op;
    auto *Val = reinterpret_cast<pv::ir::RawValue *>(U->Val);
    U->Next = Val->UseList;
    Val->UseList = U;
  }
  /// Statement I is the only user of its operand or one of two.
  bool uses(llvm::Instruction *I, unsigned Op, const char *Name) {
    use(I, Op);
    if (pv::flip(Name)) {
      use(load(I->getOperand(Op), P), 0);
      return true;
    }
    return false;
  }
  /// Adds one arbitrary alias of Base as seen from statement Ctx of BB, and
  /// what becomes tainted through it.
  Set anyAlias(V Base, llvm::BasicBlock *BB, llvm::Instruction *Ctx) {
    auto *OtherFn = W.func(W.fnTy(W.voidTy(), (llvm::Type *const[]){P}, 1), 0,
                           false);
    auto *OtherBB = W.block(OtherFn);
    llvm::Instruction *Q = slot();
    switch (pv::choose(12, "alias")) {
    case 0:
      return {};
    case 1: { // earlier in the function
      auto *I = slot();
      auto *B = W.block(BB->getParent());
      W.append(B, I);
      AA.may(Base, I);
      return {I};
    }
    case 2: { // later in the block
      auto *I = slot();
      W.append(BB, I);
      AA.may(Base, I);
      return {};
    }
    case 3: { // of another function
      auto *I = slot();
      W.append(OtherBB, I);
      AA.may(Base, I);
      return {};
    }
    case 4:
      AA.may(Base, OtherFn->getArg(0));
      return {};
    case 5: {
      V X = BB->getParent()->getArg(0);
      AA.may(Base, X);
      return {X};
    }
    case 6: {
      V X = W.gvar(P, nullptr);
      AA.may(Base, X);
      return {X};
    }
    case 7: // nothing flows into constant data
      AA.may(Base, W.gvar(P, nullptr, true));
      return {};
    case 8:
      AA.may(Base, OtherFn);
      return {};
    case 9:
      AA.may(Base, W.nullPtr(P));
      return {};
    case 10: { // a load: also what it was loaded from
      auto *L = load(Q, P);
      W.append(W.block(BB->getParent()), L);
      AA.may(Base, L);
      return {L, Q};
    }
    default: { // ... through casts
      auto *C = W.inst(llvm::Instruction::BitCast, P, {Q});
      auto *L = load(C, P);
      W.append(W.block(BB->getParent()), L);
      AA.may(Base, L);
      return {L, Q};
    }
    }
  }
  /// A function with one formal and one block.
  llvm::BasicBlock *body() {
    llvm::Type *Ps[] = {P};
    auto *Fn = W.func(W.fnTy(W.voidTy(), Ps, 1), 0, true);
    return W.block(Fn);
  }
  /// A value that can be an operand: by kind, whether it outlives the function.
  Value *operand(llvm::BasicBlock *BB, llvm::Type *T, bool &Outlives) {
    Outlives = false;
    switch (pv::choose(3, "operand")) {
    case 0: {
      auto *I = load(W.arg(P), T);
      W.append(BB, I);
      return I;
    }
    case 1:
      Outlives = T->isPointerTy();
      return W.arg(T, 0, BB->getParent());
    default:
      Outlives = true;
      return W.gvar(P, nullptr);
    }
  }
};
} // namespace

// ---- intra-procedural statements -------------------------------------------
PVC_CONTRACT(flow_store) {
  Fx F;
  auto *BB = F.body();
  bool PtrOut, ValOut;
  Value *Val = F.operand(BB, pv::flip("pointer") ? F.P : F.I32, ValOut);
  Value *Ptr = F.operand(BB, F.P, PtrOut);
  auto *St = F.W.inst(llvm::Instruction::Store, F.W.voidTy(), {Val, Ptr});
  F.W.append(BB, St);
  F.use(St, 1);
  bool More = F.uses(St, 0, "value has other uses");
  Set Al = F.anyAlias(Ptr, BB, St);
  Value *Unrelated = F.W.arg(F.P);
  V Facts[] = {zero(), Ptr, Val, Unrelated,
               Al.empty() ? static_cast<V>(Unrelated) : *Al.begin()};
  V X = Facts[pv::choose(5, "fact")];
  Set R = F.A.getNormalFlowFunction(St, nullptr)->computeTargets(X);
  if (X == Ptr)
    is(R, {}, "storing overwrites what the pointer pointed to");
  else if (X == Val) {
    Set Want = Al;
    Want.insert(Ptr);
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(Ptr))
      Want.insert(L->getPointerOperand()); // one level of indirection
    if (More || ValOut)
      Want.insert(Val);
    isOr(R, Want, Val,
         "storing a tainted value taints the memory location and everything "
         "that may alias it; the value stays tainted as long as it is used");
  } else
    is(R, {X}, "storing leaves unrelated taints alone");
}
PVC_CONTRACT(flow_move) {
  Fx F;
  auto *BB = F.body();
  unsigned Kind = pv::choose(4, "statement");
  bool Out;
  Value *Op = F.operand(BB, Kind == 2 ? static_cast<llvm::Type *>(F.I32) : F.P,
                        Out);
  llvm::Instruction *I;
  switch (Kind) {
  case 0:
    I = F.load(Op, pv::flip("pointer") ? F.P : F.I32);
    break;
  case 1:
    I = F.W.gep(F.I32, F.I32, {Op, F.W.constInt(F.I32, 0)});
    break;
  case 2:
    I = F.W.inst(llvm::Instruction::ExtractValue, F.I32, {Op});
    break;
  default: {
    static const unsigned Cs[] = {
        llvm::Instruction::BitCast, llvm::Instruction::PtrToInt,
        llvm::Instruction::Trunc, llvm::Instruction::SExt,
        llvm::Instruction::AddrSpaceCast};
    I = F.W.inst(Cs[pv::choose(5, "cast")], F.I32, {Op});
  }
  }
  F.W.append(BB, I);
  bool More = F.uses(I, 0, "operand has other uses");
  Value *Unrelated = F.W.arg(F.P);
  V Facts[] = {zero(), Op, I, Unrelated};
  V X = Facts[pv::choose(4, "fact")];
  Set R = F.A.getNormalFlowFunction(I, nullptr)->computeTargets(X);
  if (X == Op) {
    Set Want{I};
    if (More || Out)
      Want.insert(Op);
    isOr(R, Want, Op,
         "what is loaded, extracted, addressed or cast from a tainted value is "
         "tainted; the operand stays tainted as long as it is used, for a "
         "formal parameter also by the caller");
  } else if (X == I)
    is(R, {}, "a value is overwritten by its definition");
  else
    is(R, {X}, "computing a value leaves unrelated taints alone");
}
PVC_CONTRACT(flow_insert) {
  Fx F;
  auto *BB = F.body();
  bool AggOut, ElOut;
  Value *Agg = F.operand(BB, F.I32, AggOut);
  Value *El = F.operand(BB, pv::flip("pointer") ? F.P : F.I32, ElOut);
  auto *I = F.W.inst(llvm::Instruction::InsertValue, F.I32, {Agg, El});
  F.W.append(BB, I);
  bool MoreA = F.uses(I, 0, "aggregate has other uses"),
       MoreE = F.uses(I, 1, "element has other uses");
  Value *Unrelated = F.W.arg(F.P);
  V Facts[] = {zero(), Agg, El, I, Unrelated};
  V X = Facts[pv::choose(5, "fact")];
  Set R = F.A.getNormalFlowFunction(I, nullptr)->computeTargets(X);
  const char *L =
      "an aggregate is tainted by its tainted parts; both operands stay "
      "tainted as long as they are used, for a formal parameter also by the "
      "caller";
  if (X == Agg || X == El) {
    Set Want{I};
    if (X == Agg ? MoreA || AggOut : MoreE || ElOut)
      Want.insert(X);
    isOr(R, Want, X, L);
  } else if (X == I)
    is(R, {}, "a value is overwritten by its definition");
  else
    is(R, {X}, "inserting leaves unrelated taints alone");
}
PVC_CONTRACT(flow_other) {
  Fx F;
  static const unsigned Ops[] = {
      llvm::Instruction::Alloca, llvm::Instruction::Ret,
      llvm::Instruction::Br,     llvm::Instruction::Fence,
      llvm::Instruction::VAArg,  llvm::Instruction::Unreachable};
  Value *Op = F.W.arg(F.P);
  auto *I = F.W.inst(Ops[pv::choose(6, "statement")], F.P, {Op});
  V X = pv::flip("operand") ? static_cast<V>(Op) : zero();
  is(F.A.getNormalFlowFunction(I, nullptr)->computeTargets(X), {X},
     "other statements keep all taints");
}

// ---- calls ----------------------------------------------------------------
namespace {
/// Roles of the formals and what the callbacks say.
struct Cfg {
  TaintCategory Cat[2];
  V Source = nullptr, Sink = nullptr, San = nullptr;
};
Cfg C0;
std::set<V> one(V X) {
  std::set<V> R;
  if (X)
    R.insert(X);
  return R;
}
struct Call : Fx {
  uint64_t NP;
  llvm::Function *Fn[2];
  llvm::CallInst *CS;
  Value *Args[2];
  Value *Local;
  llvm::GlobalVariable *Glob;
  llvm::BasicBlock *Caller, *BB = nullptr;
  Set Gen, Leak, Kill;
  bool Entered = true; // by sources and sinks of the configuration
  enum Conf { None, Formals = 1, Callbacks = 2, Result = 4, All = 7 };
  Call(uint64_t MaxP, bool Body, unsigned Configured) {
    NP = pv::choose(MaxP + 1, "formals");
    pv_note_bounded_("calls with at most two formals");
    llvm::Type *Ps[2] = {P, I32};
    if (NP && pv::flip("formals swapped"))
      std::swap(Ps[0], Ps[1]);
    auto *FT = W.fnTy(P, Ps, NP);
    for (auto &X : Fn)
      X = W.func(FT, 0, true);
    if (Body)
      BB = W.block(Fn[0]);
    Caller = body();
    Local = W.arg(P);
    Glob = W.gvar(P, nullptr);
    for (uint64_t I = 0; I < NP; ++I)
      Args[I] = W.arg(Ps[I]);
    if (NP && Ps[0]->isPointerTy() && pv::flip("global actual"))
      Args[0] = Glob;
    CS = W.call(FT, Fn[0], Args, NP);
    W.append(Caller, CS);
    if (!Configured)
      return;
    C0 = {};
    V Vals[] = {nullptr, CS, NP ? static_cast<V>(Args[0]) : Local};
    for (uint64_t I = 0; I < NP && (Configured & Formals); ++I) {
      auto Cat = TaintCategory(pv::choose(4, "category"));
      TC.addTaintCategory(Fn[0]->getArg(I), Cat);
      if (Cat == TaintCategory::Source)
        Gen.insert(Args[I]);
      if (Cat == TaintCategory::Sink)
        Leak.insert(Args[I]);
      if (Cat == TaintCategory::Sanitizer)
        Kill.insert(Args[I]);
    }
    switch (Configured & Callbacks ? pv::choose(4, "callback") : 0) {
    case 0:
      break;
    case 1:
      C0.Source = Vals[pv::choose(3, "callback source")];
      TC.registerSourceCallBack([](N I) { return one(C0.Source); });
      if (C0.Source)
        Gen.insert(C0.Source);
      break;
    case 2:
      C0.Sink = Vals[pv::choose(3, "callback sink")];
      TC.registerSinkCallBack([](N I) { return one(C0.Sink); });
      if (C0.Sink)
        Leak.insert(C0.Sink);
      break;
    default:
      C0.San = Vals[pv::choose(3, "callback sanitizer")];
      TC.registerSanitizerCallBack([](N I) { return one(C0.San); });
      if (C0.San)
        Kill.insert(C0.San);
    }
    if ((Configured & Result) && pv::flip("result is a source")) {
      TC.addSourceValue(CS);
      Gen.insert(CS);
    }
  }
  V fact() {
    switch (uint64_t K = pv::choose(4 + NP, "fact")) {
    case 0:
      return zero();
    case 1:
      return Local;
    case 2:
      return Glob;
    case 3:
      return CS;
    default:
      return Args[K - 4];
    }
  }
};
} // namespace
PVC_CONTRACT(flow_call) {
  bool Two = pv::flip("two formals or callbacks");
  Call C(1 + Two, pv::flip("callee has a body"),
         Two ? Call::Formals : Call::All);
  V X = C.fact();
  Set R = C.A.getCallFlowFunction(C.CS, C.Fn[0])->computeTargets(X);
  Set Want;
  if (C.BB) {
    if (X == zero() || X == C.Glob)
      Want.insert(X);
    for (uint64_t I = 0; I < C.NP; ++I)
      if (C.Args[I] == X)
        Want.insert(C.Fn[0]->getArg(I));
  }
  if (R.empty() && !Want.empty())
    pv::ensures(!C.Gen.empty() || !C.Leak.empty(),
                "only sources and sinks, which are summarized, are not "
                "entered");
  else
    is(R, Want, "the callee gets the formals of the tainted actuals, globals "
                "and the zero fact");
}
PVC_CONTRACT(flow_ret) {
  Call C(2, true, Call::None);
  Value *RV = nullptr;
  llvm::Instruction *Def = C.slot();
  C.W.append(C.BB, Def);
  llvm::Instruction *Exit;
  switch (pv::choose(3, "exit")) {
  case 0:
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {});
    break;
  case 1:
    RV = C.NP && pv::flip("returns a formal")
             ? static_cast<Value *>(C.Fn[0]->getArg(0))
             : Def;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  default:
    Exit = C.W.inst(llvm::Instruction::Unreachable, C.W.voidTy(), {});
  }
  C.W.append(C.BB, Exit);
  V X;
  switch (uint64_t K = pv::choose(4 + C.NP, "fact")) {
  case 0:
    X = zero();
    break;
  case 1:
    X = Def;
    break;
  case 2:
    X = C.Local;
    break;
  case 3:
    X = C.Glob;
    break;
  default:
    X = C.Fn[0]->getArg(K - 4);
  }
  Set Want;
  if (X == zero() || X == C.Glob)
    Want.insert(X);
  for (uint64_t I = 0; I < C.NP; ++I)
    if (X == C.Fn[0]->getArg(I) && X->getType()->isPointerTy())
      Want.insert(C.Args[I]);
  if (RV && X == RV)
    Want.insert(C.CS);
  Set Al;
  for (V Y : Want)
    if (Y != zero()) {
      Al = C.anyAlias(Y, C.Caller, C.CS);
      break;
    }
  Want.insert(Al.begin(), Al.end());
  is(C.A.getRetFlowFunction(C.CS, C.Fn[0], Exit, nullptr)->computeTargets(X),
     Want,
     "the caller gets the actuals of the tainted pointer formals, the tainted "
     "result, globals and the zero fact, and whatever may alias them");
}
PVC_CONTRACT(flow_call_to_ret) {
  Call C(2, false, Call::None);
  size_t Num = pv::choose(3, "callees");
  pv_note_bounded_("call sites with at most two callees");
  const llvm::Function *Cs[2] = {C.Fn[0], C.Fn[1]};
  bool AllEntered = Num != 0;
  for (size_t I = 0; I < Num; ++I)
    if (pv::flip("defined"))
      C.W.block(C.Fn[I]);
    else
      AllEntered = false;
  V X = C.fact();
  Set R = C.A.getCallToRetFlowFunction(
                 C.CS, nullptr, llvm::ArrayRef<const llvm::Function *>(Cs, Num))
              ->computeTargets(X);
  bool Arg = false;
  for (uint64_t I = 0; I < C.NP; ++I)
    Arg |= C.Args[I] == X;
  if (Arg && AllEntered && X->getType()->isPointerTy() && X != C.Glob)
    is(R, {}, "taints of pointer arguments go through the callees");
  else
    is(R, {X}, "other taints pass by the call, all of them if the call has an "
               "unknown callee");
}
namespace {
void summary(unsigned Conf) {
  bool Alias = Conf == Call::Result;
  Call C(Conf == Call::All ? 1 : 2, !Alias && pv::flip("callee has a body"),
         Conf);
  bool SRet = C.NP && C.Args[0]->getType()->isPointerTy() && pv::flip("sret");
  if (SRet)
    SRetCall = C.CS;
  V X = C.fact();
  Set Al;
  if (C.Gen.size() == 1 && Alias)
    Al = C.anyAlias(*C.Gen.begin(), C.Caller, C.CS);
  auto FF = C.A.getSummaryFlowFunction(C.CS, C.Fn[0]);
  bool Configured = !C.Gen.empty() || !C.Leak.empty() || !C.Kill.empty();
  pv::ensures(!Configured || FF,
              "calls the configuration knows are summarized");
  pv::ensures(Configured || !FF || !C.BB,
              "callees with a body are analyzed unless the configuration knows "
              "them");
  if (!FF) {
    pv_done_();
    return;
  }
  Set R = FF->computeTargets(X);
  if (X == zero()) {
    Set Want = C.Gen;
    Want.insert(Al.begin(), Al.end());
    Want.insert(X);
    is(R, Want, "a source generates what it taints and the may-aliases of it");
  } else {
    bool Written = SRet && X == C.Args[0] && !C.Gen.count(X);
    if (C.Kill.count(X))
      is(R, {}, "sanitized taints are killed");
    else if (Written)
      isOr(R, {}, X, "the struct a call returns may be overwritten");
    else
      is(R, {X}, "all other taints stay");
  }
  bool Leaks = X != zero() && C.Leak.count(X);
  auto It = C.A.Leaks.find(C.CS);
  pv::ensures((It != C.A.Leaks.end() && It->second.count(X)) == Leaks &&
                  C.Pr.Reports == (Leaks ? 1u : 0u) &&
                  (!Leaks || C.Pr.Last == X),
              "a tainted argument of a sink is reported as a leak at the call, "
              "nothing else is");
  // reported once
  FF->computeTargets(X);
  pv::ensures(C.Pr.Reports == (Leaks ? 1u : 0u), "a leak is reported once");
}
} // namespace
PVC_CONTRACT(flow_summary_formals) { summary(Call::Formals); }
PVC_CONTRACT(flow_summary_callbacks) { summary(Call::All); }
PVC_CONTRACT(flow_summary_aliases) { summary(Call::Result); }
PVC_CONTRACT(flow_library) {
  Call C(2, pv::flip("callee has a body"), Call::None);
  pv_note_bounded_("library functions with at most two effects");
  bool SRet = C.NP && C.Args[0]->getType()->isPointerTy() && pv::flip("sret");
  if (SRet)
    SRetCall = C.CS;
  // effects: argument -> argument / result
  uint64_t Num = C.NP ? pv::choose(3, "effects") : 0;
  uint64_t From[2] = {}, To[2] = {};
  for (uint64_t I = 0; I < Num; ++I) {
    From[I] = pv::choose(C.NP, "from");
    To[I] = pv::choose(C.NP + 1, "to");
    if (To[I] == C.NP)
      C.A.Llvmfdff.addElement(C.Fn[0], From[I],
                              library_summary::ReturnValue{});
    else
      C.A.Llvmfdff.addElement(
          C.Fn[0], From[I],
          library_summary::Parameter{uint16_t(To[I])});
  }
  V X = C.fact();
  auto FF = C.A.getSummaryFlowFunction(C.CS, C.Fn[0]);
  pv::ensures(!Num || FF, "known library functions are summarized");
  if (!FF || !Num) {
    pv_done_();
    return;
  }
  Set Want{X};
  for (uint64_t I = 0; I < Num; ++I)
    if (X == C.Args[From[I]])
      Want.insert(To[I] == C.NP ? static_cast<V>(C.CS) : C.Args[To[I]]);
  is(FF->computeTargets(X), Want,
     "a library function taints what its summary says and keeps all taints");
}
PVC_CONTRACT(flow_swift_append) {
  Fx F;
  SwiftName = true;
  llvm::Type *Ps[] = {F.P, F.P, F.P, F.P};
  auto *FT = F.W.fnTy(F.P, Ps, 4);
  Value *Args[] = {F.W.arg(F.P), F.W.arg(F.P), F.W.arg(F.P), F.W.arg(F.P)};
  auto *Fn = F.W.func(FT);
  auto *CS = F.W.call(FT, Fn, Args, 4);
  V X = Args[pv::choose(4, "argument")];
  if (pv::flip("zero"))
    X = zero();
  Set Want{X};
  if (X == Args[1] || X == Args[3])
    Want.insert(CS);
  is(F.A.getSummaryFlowFunction(CS, Fn)->computeTargets(X), Want,
     "appending a tainted string taints the result");
}

// ---- the taint configuration -------------------------------------------------
namespace {
template <typename Fn> Set gather(Fn &&F) {
  Set R;
  F([&R](V X) { R.insert(X); });
  return R;
}
} // namespace
PVC_CONTRACT(config_queries) {
  Call C(2, false, Call::All);
  auto &T = C.TC;
  bool Other = pv::flip("another value is configured");
  if (Other)
    T.addSinkValue(C.Local);
  Set Gen, Leak, Kill;
  collectGeneratedFacts(Gen, T, C.CS, C.Fn[0]);
  collectLeakedFacts(Leak, T, C.CS, C.Fn[0]);
  collectSanitizedFacts(Kill, T, C.CS, C.Fn[0]);
  is(Gen, C.Gen, "the generated facts of a call: callback, result, actuals of "
                 "source parameters");
  is(Leak, C.Leak, "the leaked facts of a call: callback, actuals of sink "
                   "parameters");
  is(Kill, C.Kill, "the sanitized facts of a call: callback, actuals of "
                   "sanitizing parameters");
  is(gather([&](auto H) { T.forAllGeneratedValuesAt(C.CS, C.Fn[0], H); }),
     C.Gen, "forAllGeneratedValuesAt visits the same facts");
  is(gather([&](auto H) { T.forAllLeakCandidatesAt(C.CS, C.Fn[0], H); }),
     C.Leak, "forAllLeakCandidatesAt visits the same facts");
  is(gather([&](auto H) { T.forAllSanitizedValuesAt(C.CS, C.Fn[0], H); }),
     C.Kill, "forAllSanitizedValuesAt visits the same facts");
  pv::ensures(T.generatesValuesAt(C.CS, C.Fn[0]) == !C.Gen.empty() &&
                  T.mayLeakValuesAt(C.CS, C.Fn[0]) == !C.Leak.empty() &&
                  T.sanitizesValuesAt(C.CS, C.Fn[0]) == !C.Kill.empty(),
              "the predicates hold iff there is such a fact");
  // selective leaks
  Set Some;
  collectLeakedFacts(Some, T, C.CS, C.Fn[0],
                     [&C](V X) { return X != C.CS; });
  Set Want = C.Leak;
  Want.erase(C.CS);
  is(Some, Want, "only leaks that satisfy the predicate are collected");
}
PVC_CONTRACT(config_categories) {
  Env E;
  pv::ir::World W;
  LLVMTaintConfig T{{}, {}, {}};
  llvm::Type *P = W.ptrTy(W.intTy(8));
  V Vals[2] = {W.arg(P), W.arg(P)};
  bool Is[2][4] = {};
  for (int I = 0; I < 3; ++I) {
    auto Cat = TaintCategory(pv::choose(4, "category"));
    int K = pv::choose(2, "value");
    switch (pv::choose(2, "how")) {
    case 0:
      T.addTaintCategory(Vals[K], Cat);
      break;
    default:
      if (Cat == TaintCategory::Source)
        T.addSourceValue(Vals[K]);
      else if (Cat == TaintCategory::Sink)
        T.addSinkValue(Vals[K]);
      else if (Cat == TaintCategory::Sanitizer)
        T.addSanitizerValue(Vals[K]);
    }
    Is[K][unsigned(Cat)] = true;
  }
  for (int K = 0; K < 2; ++K) {
    bool So = Is[K][unsigned(TaintCategory::Source)],
         Si = Is[K][unsigned(TaintCategory::Sink)],
         Sa = Is[K][unsigned(TaintCategory::Sanitizer)];
    pv::ensures(T.isSource(Vals[K]) == So && T.isSink(Vals[K]) == Si &&
                    T.isSanitizer(Vals[K]) == Sa,
                "a value has exactly the categories it was given");
    auto C = T.getCategory(Vals[K]);
    pv::ensures(C == TaintCategory::Source      ? So
                : C == TaintCategory::Sink      ? Si
                : C == TaintCategory::Sanitizer ? Sa
                                                : !So && !Si && !Sa,
                "the category of a value is one it was given, or none");
  }
}

// ---- where the analysis starts ------------------------------------------------
namespace {
/// Three functions, some of which are declarations or not in the module.
struct Funcs {
  pv::ir::World W;
  llvm::Function *Fn[3] = {};
  N First[3] = {};
  bool Body[3] = {};
  Funcs() {
    llvm::Type *P = W.ptrTy(W.intTy(8));
    llvm::Type *Ps[2] = {P, W.intTy(32)};
    for (int I = 0; I < 3; ++I)
      switch (pv::choose(3, "function")) {
      case 0:
        break;
      case 1:
        Fn[I] = W.func(W.fnTy(P, Ps, 2));
        break;
      default:
        Fn[I] = W.func(W.fnTy(P, Ps, 2));
        Body[I] = true;
        auto *BB = W.block(Fn[I]);
        First[I] = W.append(BB, W.alloca_(P, W.constInt(W.intTy(32), 1)));
        W.append(BB, W.inst(llvm::Instruction::Ret, W.voidTy(), {}));
      }
  }
  static int id(llvm::StringRef Name) {
    return Name == "main" ? 0 : Name == "f" ? 1 : Name == "g" ? 2 : -1;
  }
} *TheFuncs;
const llvm::Function *fakeGetFunction(const void *, llvm::StringRef Name) {
  int K = Funcs::id(Name);
  return K < 0 ? nullptr : TheFuncs->Fn[K];
}
} // namespace
PVC_CONTRACT(initial_seeds) {
  Funcs Fs;
  TheFuncs = &Fs;
  pv_note_bounded_("modules of at most three functions");
  pv::replace(&ProjectIRDBBase<LLVMProjectIRDB>::getFunction, &fakeGetFunction);
  Env E;
  AnyAlias AA;
  LLVMTaintConfig TC{{}, {}, {}};
  bool Main = pv::flip("main is an entry point"), F = pv::flip("f");
  bool Tainted = pv::flip("taint the arguments of main");
  std::vector<std::string> EP;
  if (F)
    EP.push_back("f");
  if (Main)
    EP.push_back("main");
  IFDSTaintAnalysis A(reinterpret_cast<const LLVMProjectIRDB *>(IRDBBuf),
                      LLVMAliasInfoRef(&AA), &TC, EP, Tainted);
  auto Seeds = A.initialSeeds();
  auto Map = Seeds.getSeeds();
  size_t Starts = 0;
  for (int I = 0; I < 2; ++I) {
    if (!(I ? F : Main) || !Fs.Body[I])
      continue;
    ++Starts;
    auto It = Map.find(Fs.First[I]);
    pv::ensures(It != Map.end(), "every entry point has a seed at its start");
    Set Got, Want{zero()};
    for (auto &[D, L] : It->second) {
      Got.insert(D);
      pv::ensures(L == BinaryDomain::BOTTOM, "seeds hold");
    }
    if (I == 0 && Tainted) {
      Want.insert(Fs.Fn[0]->getArg(0));
      Want.insert(Fs.Fn[0]->getArg(1));
    }
    is(Got, Want, "an entry point is seeded with the zero fact, main with its "
                  "arguments if they are tainted");
  }
  pv::ensures(Map.size() == Starts, "there are no other seeds");
}
PVC_CONTRACT(config_seeds) {
  Env E;
  Funcs Fs;
  pv_note_bounded_("modules of at most three functions");
  LLVMTaintConfig T{{}, {}, {}};
  // sources: a formal of each function, an instruction, something else
  std::map<N, Set> Want;
  for (int I = 0; I < 3; ++I)
    if (Fs.Fn[I] && pv::flip("a formal is a source")) {
      T.addSourceValue(Fs.Fn[I]->getArg(I & 1));
      if (Fs.Body[I])
        Want[Fs.First[I]].insert(Fs.Fn[I]->getArg(I & 1));
    }
  if (Fs.First[0] && pv::flip("an instruction is a source")) {
    T.addSourceValue(Fs.First[0]);
    Want[Fs.First[0]].insert(Fs.First[0]);
  }
  if (pv::flip("a global is a source"))
    T.addSourceValue(Fs.W.gvar(Fs.W.ptrTy(Fs.W.intTy(8)), nullptr));
  if (Fs.Fn[0])
    T.addSinkValue(Fs.Fn[0]->getArg(0));
  auto Got = T.makeInitialSeeds();
  bool Eq = Got.size() == Want.size();
  for (auto &[I, S] : Want) {
    auto It = Got.find(I);
    Eq = Eq && It != Got.end() && It->second == S;
  }
  pv::ensures(Eq, "sources that are instructions are seeded where they are "
                  "computed, formals at the start of their function");
}
