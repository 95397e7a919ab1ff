// Contracts: construction of the call graph
// (lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp).
//
// The resolver is arbitrary: a target may be possible always, never, or only
// once some other target has been handled (alias information that grows while
// the graph is built).
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraph.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfo.h"
#include "phasar/Utils/Soundness.h"

#include "llvm/IR/Constants.h"
#include "llvm/IR/Module.h"

#ifndef PV_NATIVE
bool psr::LLVMProjectIRDB::isValidImpl() const noexcept { return Mod != nullptr; }
template class psr::ProjectIRDBBase<psr::LLVMProjectIRDB>;
#endif
template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;
template class psr::AliasInfo<const llvm::Value *, const llvm::Instruction *>;
template class psr::CallGraph<const llvm::Instruction *, const llvm::Function *>;
template class psr::CallGraphBuilder<const llvm::Instruction *,
                                     const llvm::Function *>;

using namespace psr;
using llvm::Instruction;
using llvm::Value;
using F_t = const llvm::Function *;
using N_t = const Instruction *;

namespace {
llvm::StringRef noName(const Value *) { return "f"; }
F_t callee(const llvm::CallBase *C) {
  auto *F = llvm::dyn_cast<llvm::Function>(C->getCalledOperand());
  return F && F->getFunctionType() == C->getFunctionType() ? F : nullptr;
}

enum { FE, FD, FX, FExt, NumF };
enum { CA, CB, CC, NumC };
struct AnyResolver : Resolver {
  N_t Call[NumC];
  F_t Fn[NumF];
  N_t Other[NumF] = {};
  bool Grows, Mutates;
  // may Fn[J] be called at Call[I]? (chosen when first asked for)
  enum Mode { Never, Always, AfterA, AfterB, AfterC, Unknown };
  Mode M[NumC][NumF];
  bool Handled[NumC][NumF] = {};
  unsigned Open = 0;
  bool OtherSeen[NumF] = {};
  AnyResolver(const LLVMProjectIRDB *DB, const LLVMVFTableProvider *VTP)
      : Resolver(DB, VTP) {
    for (auto &R : M)
      for (auto &X : R)
        X = Unknown;
  }
  int call(N_t I) const {
    for (unsigned K = 0; K < NumC; ++K)
      if (Call[K] == I)
        return K;
    pv::ensures(false, "only call sites are resolved");
    return 0;
  }
  int fun(F_t F) const {
    for (unsigned K = 0; K < NumF; ++K)
      if (Fn[K] == F)
        return K;
    pv::ensures(false, "only possible targets are handled");
    return 0;
  }
  bool candidate(int C, int F) const {
    return (C == CA && F == FX) || (C == CB && (F == FX || F == FExt)) ||
           (C == CC && F == FD);
  }
  bool now(int C, int F) {
    if (!candidate(C, F))
      return false;
    if (M[C][F] == Unknown)
      M[C][F] = Mode(pv::choose(Grows ? 5 : 2, "possible target"));
    switch (M[C][F]) {
    case Never:
      return false;
    case Always:
      return true;
    default: {
      auto &H = Handled[M[C][F] - AfterA];
      return H[FE] || H[FD] || H[FX] || H[FExt];
    }
    }
  }
  void preCall(N_t I) override {
    call(I);
    pv::ensures(Open == 0, "calls are announced and finished one by one");
    ++Open;
  }
  void postCall(N_t I) override {
    call(I);
    pv::ensures(Open == 1, "calls are announced and finished one by one");
    --Open;
  }
  void handlePossibleTargets(const llvm::CallBase *C,
                             FunctionSetTy &Ts) override {
    pv::ensures(Open == 1, "targets are handled between announcing and "
                           "finishing the call");
    for (F_t F : Ts)
      Handled[call(C)][fun(F)] = true;
  }
  FunctionSetTy resolve(const llvm::CallBase *C) {
    pv::ensures(Open == 1, "a call is resolved between announcing and "
                           "finishing it");
    FunctionSetTy Ret;
    for (unsigned J = 0; J < NumF; ++J)
      if (now(call(C), J))
        Ret.insert(Fn[J]);
    return Ret;
  }
  FunctionSetTy resolveVirtualCall(const llvm::CallBase *C) override {
    return resolve(C);
  }
  FunctionSetTy resolveFunctionPointer(const llvm::CallBase *C) override {
    return resolve(C);
  }
  void otherInst(N_t I) override {
    for (unsigned K = 0; K < NumF; ++K)
      OtherSeen[K] = OtherSeen[K] || Other[K] == I;
  }
  std::string str() const override { return "any"; }
  bool mutatesHelperAnalysisInformation() const noexcept override {
    return Mutates;
  }
};

struct Env {
  pv::ir::World W;
  alignas(16) char ModBuf[sizeof(llvm::Module)] = {};
  alignas(16) char DBBuf[sizeof(LLVMProjectIRDB)] = {};
  alignas(16) char VTPBuf[sizeof(LLVMVFTableProvider)] = {};
  llvm::Module *M = reinterpret_cast<llvm::Module *>(ModBuf);
  LLVMProjectIRDB *DB = reinterpret_cast<LLVMProjectIRDB *>(DBBuf);
  LLVMVFTableProvider *VTP = reinterpret_cast<LLVMVFTableProvider *>(VTPBuf);
  using Map = decltype(LLVMVFTableProvider::TypeVFTMap);
  llvm::IntegerType *I32 = W.intTy(32), *I64 = W.intTy(64);
  llvm::FunctionType *FT = W.fnTy(I32, nullptr, 0), *FT2 = W.fnTy(I64, nullptr, 0);
  llvm::Function *Fn[NumF];
  Env() {
    new (&VTP->TypeVFTMap) Map();
    new (&M->FunctionList) llvm::Module::FunctionListType();
    new (&DB->Mod) MaybeUniquePtr<llvm::Module>(M);
    for (auto &F : Fn) {
      F = W.func(FT, 0, &F == &Fn[FExt]);
      pv::ir::World::link(reinterpret_cast<void **>(&M->FunctionList),
                          &reinterpret_cast<pv::ir::RawFunc *>(F)->Prev);
    }
    pv::replace(&Value::getName, &noName);
  }
  ~Env() { VTP->TypeVFTMap.~Map(); }
  N_t add(int F, llvm::Instruction *I) {
    return W.append(&*Fn[F]->begin(), I);
  }
  llvm::CallBase *call(Value *Callee, bool Other = false) {
    return W.call(Other ? FT2 : FT, Callee, nullptr, 0);
  }
};
} // namespace

PVC_CONTRACT(call_graph) {
  pv_note_bounded_("three functions with bodies and one call each");
  Env E;
  auto *PF = E.W.ptrTy(E.FT);
  AnyResolver R(E.DB, E.VTP);
  for (unsigned I = 0; I < NumF; ++I)
    R.Fn[I] = E.Fn[I];
  bool Unsound = pv::flip("unsound");
  R.Mutates = pv::flip("resolver changes alias information");
  R.Grows = R.Mutates && !Unsound;
  // the entry function calls the second one directly, something that is no
  // function, or indirectly
  unsigned K = unsigned(pv::choose(5, "call"));
  bool DynA = K == 4;
  Value *Op;
  switch (K) {
  case 0:
    Op = E.Fn[FD];
    break;
  case 1: {
    Value *O[] = {E.Fn[FD]};
    auto *C = E.W.rawUser<pv::ir::RawValue>(Value::ConstantExprVal,
                                            E.W.ptrTy(E.FT2), O, 1);
    C->SubclassData = Instruction::BitCast;
    Op = reinterpret_cast<Value *>(C);
    break;
  }
  case 2: {
    Value *O[] = {E.Fn[FD]};
    Op = reinterpret_cast<Value *>(E.W.rawUser<pv::ir::RawGlobal>(
        Value::GlobalAliasVal, PF, O, 1));
    break;
  }
  case 3:
    Op = reinterpret_cast<Value *>(
        E.W.rawVal<pv::ir::RawValue>(Value::InlineAsmVal, PF));
    break;
  default:
    Op = E.W.arg(PF);
  }
  R.Other[FE] = E.add(FE, E.W.inst(Instruction::Load, E.I32, {E.W.arg(E.W.ptrTy(E.I32))}));
  R.Call[CA] = E.add(FE, E.call(Op, K == 1));
  R.Call[CB] = E.add(FD, E.call(E.W.arg(PF)));
  R.Other[FD] = E.add(FD, E.W.inst(Instruction::Ret, E.W.voidTy(), {R.Other[FE] ? (Value *)E.W.arg(E.I32) : nullptr}));
  // in a second block of the third function
  auto *B2 = E.W.block(E.Fn[FX]);
  R.Other[FX] = E.add(FX, E.W.inst(Instruction::Load, E.I32, {E.W.arg(E.W.ptrTy(E.I32))}));
  bool DynC = pv::flip("third call is indirect");
  F_t StaticC = pv::flip("recursive") ? E.Fn[FE] : E.Fn[FExt];
  auto *TheC = E.call(DynC ? (Value *)E.W.arg(PF)
                           : const_cast<llvm::Function *>(StaticC));
  E.W.append(B2, TheC);
  R.Call[CC] = TheC;

  bool EntryD = pv::flip("two entry points");
  F_t Entries[] = {E.Fn[FE], EntryD ? E.Fn[FD] : E.Fn[FE]};
  auto CG = buildLLVMBasedCallGraph(
      *E.DB, R, llvm::ArrayRef<F_t>(Entries, 1 + EntryD),
      Unsound ? Soundness::Unsound : Soundness::Soundy);

  // the least graph that contains the entry points and the targets of every
  // call in it
  bool In[NumF] = {true, EntryD};
  bool Edge[NumC][NumF] = {};
  constexpr int Body[NumC] = {FE, FD, FX};
  for (bool Change = true; Change;) {
    Change = false;
    for (int C = 0; C < NumC; ++C) {
      if (!In[Body[C]])
        continue;
      for (int F = 0; F < NumF; ++F) {
        bool T = false;
        if (C == CA && K < 4)
          T = K < 3 && F == FD;
        else if (C == CC && !DynC)
          T = E.Fn[F] == StaticC;
        else if (R.candidate(C, F)) {
          auto Md = R.M[C][F];
          pv::ensures(Md != AnyResolver::Unknown,
                      "every call in the graph is resolved");
          if (Md == AnyResolver::Always)
            T = true;
          else if (Md != AnyResolver::Never)
            for (bool H : Edge[Md - AnyResolver::AfterA])
              T = T || H;
        }
        if (T && !Edge[C][F])
          Change = Edge[C][F] = In[F] = true;
      }
    }
  }
  for (int C = 0; C < NumC; ++C) {
    auto Callees = CG.getCalleesOfCallAt(R.Call[C]);
    unsigned N = 0;
    for (int F = 0; F < NumF; ++F) {
      N += Edge[C][F];
      unsigned Cnt = 0, CntR = 0;
      for (F_t G : Callees)
        Cnt += G == E.Fn[F];
      for (N_t I : CG.getCallersOf(E.Fn[F]))
        CntR += I == R.Call[C];
      pv::ensures(Cnt == Edge[C][F] && CntR == Edge[C][F],
                  "every call reachable from an entry point has an edge to "
                  "each of its possible targets, once, and no other");
      pv::ensures(R.Handled[C][F] == Edge[C][F],
                  "the resolver is told every target");
    }
    pv::ensures(Callees.size() == N, "there are no other callees");
  }
  for (int F = 0; F < NumF; ++F) {
    bool Vertex = false;
    for (F_t G : CG.getAllVertexFunctions())
      Vertex = Vertex || G == E.Fn[F];
    pv::ensures(Vertex == In[F], "the functions of the graph are the reachable "
                                 "ones");
    if (R.Other[F])
      pv::ensures(R.OtherSeen[F] == In[F],
                  "the resolver sees the statements of the reachable "
                  "functions");
  }
  pv::ensures(R.Open == 0, "every call is finished");
}

namespace {
/// One function with two calls; the targets of the first become possible one
/// after the other, in an arbitrary order.
struct StepResolver : Resolver {
  N_t First, Second;
  F_t Fn[4];
  unsigned Order[4];
  unsigned Start, Total;
  unsigned Seen = 0;
  using Resolver::Resolver;
  void handlePossibleTargets(const llvm::CallBase *C,
                             FunctionSetTy &Ts) override {
    pv::ensures(C == First || C == Second, "only call sites are handled");
    if (C == First)
      for (unsigned K = 0; K < 4; ++K)
        if (Ts.count(Fn[Order[K]]) && Seen < K + 1)
          Seen = K + 1;
  }
  FunctionSetTy resolve(const llvm::CallBase *C) {
    FunctionSetTy Ret;
    if (C == First)
      for (unsigned K = 0; K < Total && (K < Start || K <= Seen); ++K)
        Ret.insert(Fn[Order[K]]);
    return Ret;
  }
  FunctionSetTy resolveVirtualCall(const llvm::CallBase *C) override {
    return resolve(C);
  }
  FunctionSetTy resolveFunctionPointer(const llvm::CallBase *C) override {
    return resolve(C);
  }
  std::string str() const override { return "step"; }
  bool mutatesHelperAnalysisInformation() const noexcept override {
    return true;
  }
};
} // namespace
PVC_CONTRACT(call_graph_growth) {
  pv_note_bounded_("four targets of one call");
  Env E;
  StepResolver R(E.DB, E.VTP);
  auto *PF = E.W.ptrTy(E.FT);
  R.First = E.add(FE, E.call(E.W.arg(PF)));
  unsigned K = unsigned(pv::choose(3, "second call"));
  F_t Direct = K == 0 ? E.Fn[FExt] : nullptr;
  R.Second = E.add(FE, E.call(K == 0   ? (Value *)E.Fn[FExt]
                              : K == 1 ? reinterpret_cast<Value *>(
                                             E.W.rawVal<pv::ir::RawValue>(
                                                 Value::InlineAsmVal, PF))
                                       : E.W.arg(PF)));
  bool Used[4] = {};
  for (unsigned I = 0; I < 4; ++I) {
    R.Fn[I] = E.Fn[I];
    R.Order[I] = unsigned(pv::choose(4, "order"));
    pv::requires_(!Used[R.Order[I]]);
    Used[R.Order[I]] = true;
  }
  R.Total = unsigned(pv::choose(5, "targets"));
  // the first ones are possible from the beginning
  R.Start = R.Total ? unsigned(pv::choose(R.Total, "possible at once")) : 0;
  F_t Entry = E.Fn[FE];
  auto CG = buildLLVMBasedCallGraph(*E.DB, R, llvm::ArrayRef<F_t>(&Entry, 1),
                                    Soundness::Soundy);
  auto A = CG.getCalleesOfCallAt(R.First), B = CG.getCalleesOfCallAt(R.Second);
  pv::ensures(A.size() == R.Total,
              "calls are resolved again until there are no new targets");
  for (unsigned I = 0; I < R.Total; ++I) {
    unsigned N = 0;
    for (F_t F : A)
      N += F == E.Fn[R.Order[I]];
    pv::ensures(N == 1, "calls are resolved again until there are no new "
                        "targets");
  }
  pv::ensures(B.size() == (Direct != nullptr) && (!Direct || B[0] == Direct),
              "the calls of a function are resolved one by one");
}

// ---- by kind of resolution --------------------------------------------------
namespace {
struct NoAlias {
  using n_t = N_t;
  using v_t = const Value *;
  using Ref = LLVMAliasInfoRef;
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept {
    return AliasAnalysisType::Invalid;
  }
  AliasResult alias(v_t, v_t, n_t) { return AliasResult::MayAlias; }
  Ref::AliasSetPtrTy getAliasSet(v_t, n_t) { return {}; }
  std::unique_ptr<Ref::AliasSetTy> getReachableAllocationSites(v_t, bool, n_t) {
    return nullptr;
  }
  bool isInReachableAllocationSites(v_t, v_t, bool, n_t) { return false; }
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(NoAlias &) {}
  void introduceAlias(v_t, v_t, n_t, AliasResult) {}
  AnalysisProperties getAnalysisProperties() const noexcept {
    return AnalysisProperties::None;
  }
};
struct Wanted {
  CallGraphAnalysisType Ty;
  const LLVMProjectIRDB *DB;
  const LLVMVFTableProvider *VTP;
  const LLVMTypeHierarchy *TH;
  void *PT;
  unsigned Created;
  N_t Call;
  F_t Target;
} Want;
struct OneResolver : Resolver {
  using Resolver::Resolver;
  FunctionSetTy resolve(const llvm::CallBase *C) {
    FunctionSetTy Ret;
    if (C == Want.Call)
      Ret.insert(Want.Target);
    return Ret;
  }
  FunctionSetTy resolveVirtualCall(const llvm::CallBase *C) override {
    return resolve(C);
  }
  FunctionSetTy resolveFunctionPointer(const llvm::CallBase *C) override {
    return resolve(C);
  }
  std::string str() const override { return "one"; }
};
std::unique_ptr<Resolver> fakeCreate(CallGraphAnalysisType Ty,
                                     const LLVMProjectIRDB *DB,
                                     const LLVMVFTableProvider *VTP,
                                     const LLVMTypeHierarchy *TH,
                                     LLVMAliasInfoRef PT) {
  ++Want.Created;
  pv::ensures(Ty == Want.Ty && DB == Want.DB && VTP == Want.VTP &&
                  TH == Want.TH && PT.AA == Want.PT,
              "calls are resolved by the wanted strategy with the given type "
              "hierarchy, tables and alias information");
  return std::make_unique<OneResolver>(DB, VTP);
}
} // namespace
PVC_CONTRACT(by_kind) {
  Env E;
  pv_replace_(reinterpret_cast<void *>(&Resolver::create),
              reinterpret_cast<void *>(&fakeCreate));
  constexpr CallGraphAnalysisType K[] = {
      CallGraphAnalysisType::NORESOLVE, CallGraphAnalysisType::CHA,
      CallGraphAnalysisType::RTA, CallGraphAnalysisType::DTA,
      CallGraphAnalysisType::VTA, CallGraphAnalysisType::OTF};
  alignas(16) char THBuf[sizeof(LLVMTypeHierarchy)] = {};
  auto *TH = reinterpret_cast<LLVMTypeHierarchy *>(THBuf);
  NoAlias AA;
  auto Ty = K[pv::choose(6, "kind")];
  bool PT = Ty == CallGraphAnalysisType::OTF || pv::flip("alias information");
  Want = {Ty, E.DB, E.VTP, TH, PT ? &AA : nullptr, 0,
          E.add(FE, E.call(E.W.arg(E.W.ptrTy(E.FT)))), E.Fn[FD]};
  F_t Entry = E.Fn[FE];
  auto CG = buildLLVMBasedCallGraph(
      *E.DB, Ty, llvm::ArrayRef<F_t>(&Entry, 1), *TH, *E.VTP,
      PT ? LLVMAliasInfoRef(&AA) : LLVMAliasInfoRef(nullptr), Soundness::Soundy);
  auto A = CG.getCalleesOfCallAt(Want.Call);
  pv::ensures(Want.Created == 1 && A.size() == 1 && A[0] == Want.Target,
              "the graph is the one of the strategy");
}
