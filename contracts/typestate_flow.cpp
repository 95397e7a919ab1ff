// Contracts: which objects the type-state analysis tracks where
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp).
//
// Type matching (except in its own contracts), alias information and the roles
// of functions are arbitrary; call sites and bodies are fabricated with at
// most two formals, two actuals beyond them and two callees.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfo.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"

template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;

using namespace psr;
using llvm::Value;
using V = const Value *;
using Set = std::set<V>;
using Base = detail::IDETypeStateAnalysisBase;

namespace {
alignas(16) char ZeroBuf[256];
const LLVMZeroValue *fakeZero() {
  return reinterpret_cast<const LLVMZeroValue *>(ZeroBuf);
}
V zero() { return LLVMZeroValue::getInstance(); }

// --- names: the symbol of callee k is "_<x>", its demangled name "<x>" -----
V NamedFn[2];
llvm::StringRef fakeGetName(V X) {
  return X == NamedFn[0] ? "_f" : X == NamedFn[1] ? "_g" : "?";
}
std::string fakeDemangle(const std::string &S) {
  return S == "_f" ? "f" : S == "_g" ? "g" : S;
}
enum Role { Factory, Api, Other, NRoles };
Role Roles[2];
struct Analysis : Base {
  explicit Analysis(LLVMAliasInfoRef PT) : Base(PT) {}
  static int id(llvm::StringRef N) {
    if (N == "f")
      return 0;
    pv::ensures(N == "g", "functions are known by their demangled name");
    return 1;
  }
  bool isAPIFunction(llvm::StringRef N) const noexcept override {
    return Roles[id(N)] != Other;
  }
  bool isFactoryFunction(llvm::StringRef N) const noexcept override {
    return Roles[id(N)] == Factory;
  }
  bool isTypeNameOfInterest(llvm::StringRef N) const noexcept override {
    return N == "struct.T";
  }
};

// --- arbitrary maps ---------------------------------------------------------
struct Memo {
  const void *K[12];
  bool B[12];
  unsigned N;
  bool get(const void *X, const char *Name) {
    for (unsigned I = 0; I < N; ++I)
      if (K[I] == X)
        return B[I];
    if (N == 12)
      pv_abort_path_("too many entries");
    K[N] = X;
    return B[N++] = pv::flip(Name);
  }
} TypeMatches, NameMatches;
bool fakeMatching(void *, V X) { return TypeMatches.get(X, "type matches"); }
bool fakeMatchingName(void *, const llvm::Type *T) {
  return NameMatches.get(T, "type name matches");
}
const void *VaTag;
llvm::StringRef fakeStructName(const llvm::StructType *T) {
  return T == VaTag ? llvm::StringRef("struct.__va_list_tag")
                    : llvm::StringRef("struct.other");
}
/// Relevant allocas of a value: none or one of its own.
V AllocaOf[4][2];
Set fakeRelevant(void *, V X) {
  for (auto &A : AllocaOf)
    if (A[0] == X && A[1])
      return {A[1]};
  return {};
}
/// Whole-module aliases: the value and possibly another one.
V AliasOf[4][2];
Set fakeWM(void *, V X) {
  for (auto &A : AliasOf)
    if (A[0] == X && A[1])
      return {A[0], A[1]};
  return {X};
}
struct AnyAlias {
  using n_t = const llvm::Instruction *;
  using v_t = V;
  using Ref = LLVMAliasInfoRef;
  Ref::AliasSetTy Sets[2];
  uint64_t Asked = 0;
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept {
    return AliasAnalysisType::Invalid;
  }
  AliasResult alias(v_t, v_t, n_t) { return AliasResult::MayAlias; }
  Ref::AliasSetTy *Box[2] = {&Sets[0], &Sets[1]};
  Ref::AliasSetPtrTy getAliasSet(v_t P, n_t) {
    ++Asked;
    return Ref::AliasSetPtrTy(&Box[!Sets[0].count(P)]);
  }
  std::unique_ptr<Ref::AliasSetTy> getReachableAllocationSites(v_t, bool, n_t) {
    return nullptr;
  }
  bool isInReachableAllocationSites(v_t, v_t, bool, n_t) { return false; }
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(AnyAlias &) {}
  void introduceAlias(v_t, v_t, n_t, AliasResult) {}
  AnalysisProperties getAnalysisProperties() const noexcept {
    return AnalysisProperties::None;
  }
};

void is(const Set &Got, const Set &Want, const char *L) {
  bool Eq = Got.size() == Want.size();
  for (V X : Want)
    Eq = Eq && Got.count(X);
  pv::ensures(Eq, L);
}

struct Fx {
  pv::ir::World W;
  AnyAlias AA;
  Analysis A;
  llvm::IntegerType *I32;
  llvm::Type *P;
  explicit Fx(bool FakeMatch = true) : A(LLVMAliasInfoRef(&AA)) {
    TypeMatches.N = NameMatches.N = 0;
    for (auto &X : AllocaOf)
      X[0] = X[1] = nullptr;
    for (auto &X : AliasOf)
      X[0] = X[1] = nullptr;
    reinterpret_cast<pv::ir::RawValue *>(ZeroBuf)->SubclassID =
        Value::GlobalVariableVal;
    pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
    pv::replace(&Value::getName, &fakeGetName);
    pv::replace(static_cast<std::string (*)(const std::string &)>(
                    &llvm::demangle),
                &fakeDemangle);
    if (FakeMatch)
      pv::replace(&Base::hasMatchingType, &fakeMatching);
    I32 = W.intTy(32);
    P = W.ptrTy(I32);
  }
  llvm::Instruction *store(Value *Val, Value *Ptr) {
    return W.inst(llvm::Instruction::Store, W.voidTy(), {Val, Ptr});
  }
  llvm::Instruction *load(Value *Ptr, llvm::Type *T) {
    return W.inst(llvm::Instruction::Load, T, {Ptr});
  }
  llvm::Type *arr(llvm::Type *El, uint64_t N) {
    struct RawArr : pv::ir::RawType {
      uint64_t N;
    };
    auto *T = static_cast<RawArr *>(W.raw(sizeof(RawArr) + 8));
    static_cast<pv::ir::RawType &>(*T) = *W.rawType(llvm::Type::ArrayTyID);
    auto **C = static_cast<void **>(W.raw(8));
    C[0] = El;
    T->Contained = C;
    T->NumContained = 1;
    T->Pointee = El;
    T->N = N;
    return reinterpret_cast<llvm::Type *>(static_cast<pv::ir::RawType *>(T));
  }
  llvm::Type *opaque() {
    return reinterpret_cast<llvm::Type *>(
        W.rawType(llvm::Type::PointerTyID));
  }
  /// Enters operand Op of I into the use list of its value.
  void use(llvm::Instruction *I, unsigned Op) {
    auto *R = reinterpret_cast<pv::ir::RawInst *>(I);
    auto *U = reinterpret_cast<pv::ir::RawUse *>(R) - R->NumOps + Op;
    auto *Val = reinterpret_cast<pv::ir::RawValue *>(U->Val);
    U->Next = Val->UseList;
    Val->UseList = U;
  }
};
} // namespace

// ---- intra-procedural statements -------------------------------------------
PVC_CONTRACT(flow_normal) {
  Fx F;
  pv::replace(&Base::getRelevantAllocas, &fakeRelevant);
  Value *Ptr = F.W.alloca_(F.P, F.W.constInt(F.I32, 1)), *Val = F.W.arg(F.P),
        *Unrelated = F.W.arg(F.P);
  auto *Fn = F.W.func(F.W.fnTy(F.W.voidTy(), nullptr, 0), 0, false);
  auto *BB = F.W.block(Fn);
  Value *RelAl = F.W.alloca_(F.P, F.W.constInt(F.I32, 1));
  AllocaOf[0][0] = Ptr;
  AllocaOf[0][1] = pv::flip("relevant alloca") ? RelAl : nullptr;
  AllocaOf[1][0] = Val;
  llvm::Instruction *I;
  unsigned Kind = pv::choose(5, "statement");
  switch (Kind) {
  case 0:
    I = static_cast<llvm::Instruction *>(Ptr);
    break;
  case 1:
    I = F.load(Ptr, F.P);
    break;
  case 2:
    I = F.store(Val, Ptr);
    break;
  case 3:
    I = F.W.gep(F.I32, F.I32, {Ptr, F.W.constInt(F.I32, 0)});
    break;
  default:
    I = F.W.inst(llvm::Instruction::BitCast, F.P, {Ptr});
  }
  F.W.append(BB, I);
  V Facts[] = {zero(), Ptr, Val, Unrelated, RelAl, I};
  V X = Facts[pv::choose(6, "fact")];
  auto FF = F.A.getNormalFlowFunction(I, nullptr);
  Set R = FF->computeTargets(X);
  Set Want{X};
  bool M = Kind <= 2 && TypeMatches.get(I, "type matches");
  if (Kind == 0 && M && X == zero())
    Want.insert(I);
  if (Kind == 1 && M) {
    if (X == Ptr)
      Want.insert(I);
    else if (X == I)
      Want.clear();
  }
  if (Kind == 2 && M) {
    if (X == Ptr)
      Want.clear();
    else if (X == Val && AllocaOf[0][1])
      Want.insert(RelAl);
  }
  is(R, Want,
     "tracked objects are generated by allocas, flow through loads and stores "
     "and are overwritten by stores; nothing else changes");
}

// ---- calls ----------------------------------------------------------------
namespace {
struct Call : Fx {
  uint64_t NP, NV;
  llvm::Function *Fn[2];
  llvm::CallInst *CS;
  Value *Args[4];
  Value *Local;
  llvm::GlobalVariable *Glob;
  llvm::AllocaInst *Va = nullptr, *Plain = nullptr, *OtherVa = nullptr;
  llvm::BasicBlock *BB = nullptr;
  Call(uint64_t MaxP, uint64_t MaxV, bool Body) {
    NP = pv::choose(MaxP + 1, "formals");
    NV = MaxV ? pv::choose(MaxV + 1, "variadic actuals") : 0;
    pv_note_bounded_("calls with at most two formals and two variadic actuals");
    bool VarArg = NV || (MaxV && pv::flip("variadic"));
    llvm::Type *Ps[2] = {P, P};
    auto *FT = W.fnTy(P, Ps, NP, VarArg);
    for (int I = 0; I < 2; ++I) {
      NamedFn[I] = Fn[I] = W.func(FT, 0, true);
      Roles[I] = Other;
    }
    if (Body) {
      BB = W.block(Fn[0]);
      Plain = W.alloca_(I32, W.constInt(I32, 1));
      W.append(BB, Plain);
      if (VarArg) {
        auto *St = W.structTy({I32});
        VaTag = St;
        pv::replace(&llvm::StructType::getName, &fakeStructName);
        OtherVa = W.alloca_(arr(W.structTy({I32}), 1), W.constInt(I32, 1));
        W.append(BB, OtherVa);
        if (pv::flip("callee reads its variadic arguments")) {
          if (pv::flip("in a later block"))
            BB = W.block(Fn[0]);
          Va = W.alloca_(arr(St, 1), W.constInt(I32, 1));
          W.append(BB, Va);
        }
      }
    }
    Local = W.arg(P);
    Glob = W.gvar(P, nullptr);
    for (uint64_t I = 0; I < NP + NV; ++I)
      Args[I] = I == 1 && pv::flip("duplicate actual") ? Args[0] : W.arg(P);
    CS = W.call(FT, Fn[0], Args, NP + NV);
  }
};
} // namespace
PVC_CONTRACT(flow_call) {
  Call C(2, 0, pv::flip("callee has a body"));
  Roles[0] = Role(pv::choose(NRoles, "role"));
  V X;
  switch (uint64_t K = pv::choose(3 + C.NP, "fact")) {
  case 0:
    X = zero();
    break;
  case 1:
    X = C.Local;
    break;
  case 2:
    X = C.Glob;
    break;
  default:
    X = C.Args[K - 3];
  }
  Set R = C.A.getCallFlowFunction(C.CS, C.Fn[0])->computeTargets(X);
  Set Want;
  if (Roles[0] == Other && C.BB) {
    if (X == zero() || X == C.Glob)
      Want.insert(X);
    for (uint64_t I = 0; I < C.NP; ++I)
      if (C.Args[I] == X)
        Want.insert(C.Fn[0]->getArg(I));
  }
  is(R, Want, "API functions are not entered; other callees get the formals of "
              "the tracked actuals, globals and the zero fact");
}
PVC_CONTRACT(flow_ret) {
  Call C(2, 2, true);
  pv::replace(&Base::getRelevantAllocas, &fakeRelevant);
  Value *RV = nullptr;
  llvm::Instruction *Exit;
  switch (pv::choose(3, "exit")) {
  case 0:
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {});
    break;
  case 1:
    RV = C.NP && pv::flip("returns a formal")
             ? static_cast<Value *>(C.Fn[0]->getArg(0))
             : C.Plain;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  default:
    Exit = C.W.inst(llvm::Instruction::Resume, C.W.voidTy(), {C.Plain});
  }
  C.W.append(C.BB, Exit);
  Value *Rel = C.W.alloca_(C.P, C.W.constInt(C.I32, 1)),
        *RelRet = C.W.alloca_(C.P, C.W.constInt(C.I32, 1));
  AllocaOf[0][0] = C.NP ? C.Args[0] : nullptr;
  AllocaOf[0][1] = Rel;
  AllocaOf[1][0] = C.CS;
  AllocaOf[1][1] = RelRet;
  V X;
  switch (uint64_t K = pv::choose(5 + C.NP, "fact")) {
  case 0:
    X = zero();
    break;
  case 1:
    X = C.Plain;
    break;
  case 2:
    X = C.Va ? C.Va : C.OtherVa ? C.OtherVa : C.Plain;
    break;
  case 3:
    X = C.Local;
    break;
  case 4:
    X = C.OtherVa ? C.OtherVa : C.Plain;
    break;
  default:
    X = C.Fn[0]->getArg(K - 5);
  }
  Set R = C.A.getRetFlowFunction(C.CS, C.Fn[0], Exit, nullptr)
              ->computeTargets(X);
  Set Want;
  if (X == zero()) {
    Want.insert(X);
  } else {
    for (uint64_t I = 0; I < C.NP; ++I)
      if (X == C.Fn[0]->getArg(I)) {
        Want.insert(C.Args[I]);
        if (C.Args[I] == C.Args[0])
          Want.insert(Rel);
      }
    if (C.Va && X == C.Va)
      for (uint64_t I = C.NP; I < C.NP + C.NV; ++I) {
        Want.insert(C.Args[I]);
        if (C.NP && C.Args[I] == C.Args[0])
          Want.insert(Rel);
      }
    if (RV && X == RV) {
      Want.insert(C.CS);
      Want.insert(RelRet);
    }
  }
  is(R, Want, "the actuals of the tracked formals, the returned object and "
              "their allocas are tracked in the caller, nothing else");
}
PVC_CONTRACT(flow_call_to_ret) {
  Call C(2, 0, false);
  pv::replace(&Base::getWMAliasesAndAllocas, &fakeWM);
  size_t N = pv::choose(3, "callees");
  pv_note_bounded_("call sites with at most two callees");
  const llvm::Function *Cs[2] = {C.Fn[0], C.Fn[1]};
  bool Decl[2] = {};
  for (size_t I = 0; I < N; ++I) {
    Roles[I] = Role(pv::choose(NRoles, "role"));
    Decl[I] = pv::flip("declaration");
    if (!Decl[I])
      C.W.block(C.Fn[I]);
  }
  Value *Alias = C.W.alloca_(C.P, C.W.constInt(C.I32, 1));
  AliasOf[0][0] = C.NP ? C.Args[0] : nullptr;
  AliasOf[0][1] = Alias;
  V X;
  switch (uint64_t K = pv::choose(5 + C.NP, "fact")) {
  case 0:
    X = zero();
    break;
  case 1:
    X = C.Local;
    break;
  case 2:
    X = C.Glob;
    break;
  case 3:
    X = C.CS;
    break;
  case 4:
    X = Alias;
    break;
  default:
    X = C.Args[K - 5];
  }
  Set R = C.A.getCallToRetFlowFunction(C.CS, nullptr,
                                       llvm::ArrayRef<const llvm::Function *>(Cs, N))
              ->computeTargets(X);
  // the first callee with special treatment decides
  Set Want{X};
  bool AnyDecl = false, Done = false;
  for (size_t I = 0; I < N && !Done; ++I) {
    if (Roles[I] == Factory) {
      if (X == zero())
        Want.insert(C.CS);
      Done = true;
      break;
    }
    AnyDecl |= Decl[I];
    if (Roles[I] == Other && !Decl[I])
      for (uint64_t A = 0; A < C.NP && !Done; ++A)
        if (TypeMatches.get(C.Args[A], "type matches")) {
          if (X == C.Args[A] || (C.Args[A] == C.Args[0] && X == Alias))
            Want.clear();
          Done = true;
        }
  }
  if (!Done && !AnyDecl && llvm::isa<llvm::Constant>(X))
    // the zero fact is re-added by the auto-zero wrapper
    Want.clear();
  is(R, Want, "factories generate their result; tracked arguments go through "
              "the callee if it is entered; everything else stays");
}
PVC_CONTRACT(flow_summary) {
  Call C(0, 0, false);
  pv::ensures(C.A.getSummaryFlowFunction(C.CS, C.Fn[0]) == nullptr,
              "API functions are modelled at the call only");
}

// ---- which values have the tracked type -------------------------------------
PVC_CONTRACT(matching_type) {
  Fx F(false);
  pv::replace(&Base::hasMatchingTypeName, &fakeMatchingName);
  auto *S = F.W.structTy({F.I32});
  auto *S2 = F.W.structTy({F.I32, F.I32});
  llvm::Type *Opaque = F.opaque();
  // types of the value: struct, pointer to struct, pointer to pointer, opaque
  auto *PS = F.W.ptrTy(S);
  llvm::Type *Ts[] = {F.I32, PS, F.W.ptrTy(PS), Opaque, F.W.ptrTy(S2)};
  llvm::Type *T = Ts[pv::choose(5, "type")];
  auto Typed = [](llvm::Type *T) {
    return T->isPointerTy() && !T->isOpaquePointerTy() &&
           NameMatches.get(T->getNonOpaquePointerElementType(), "name matches");
  };
  auto TypedOrOpaque = [&](llvm::Type *T) {
    return T->isPointerTy() && (T->isOpaquePointerTy() || Typed(T));
  };
  V X;
  bool Want;
  switch (pv::choose(5, "value")) {
  case 0:
    X = F.W.arg(T);
    Want = Typed(T);
    break;
  case 1:
    X = F.W.alloca_(T, F.W.constInt(F.I32, 1));
    // the object itself or a pointer to it lives there
    Want = NameMatches.get(T, "name matches") || TypedOrOpaque(T);
    break;
  case 2:
    X = F.load(F.W.arg(F.P), T);
    Want = TypedOrOpaque(T);
    break;
  case 3:
    X = F.store(F.W.arg(T), F.W.arg(F.P));
    Want = TypedOrOpaque(T);
    break;
  default:
    X = F.W.gvar(F.W.ptrTy(T), nullptr);
    Want = NameMatches.get(T, "name matches");
  }
  pv::ensures(F.A.hasMatchingType(X) == Want,
              "a value is tracked iff it points to, or holds a pointer to, the "
              "type of interest");
}

// ---- aliases and allocas ----------------------------------------------------
PVC_CONTRACT(relevant_allocas) {
  Fx F;
  // two aliases: a load or another value, each possibly stored somewhere
  Value *Slot = F.W.alloca_(F.P, F.W.constInt(F.I32, 1)),
        *Dst = F.W.alloca_(F.P, F.W.constInt(F.I32, 1)),
        *Dst2 = F.W.alloca_(F.P, F.W.constInt(F.I32, 1));
  bool IsLoad = pv::flip("first alias is a load");
  Value *A0 = IsLoad ? static_cast<Value *>(F.load(Slot, F.P)) : F.W.arg(F.P);
  Value *A1 = F.W.arg(F.P);
  pv::replace(&Base::getWMAliasSet, &fakeWM);
  AliasOf[0][0] = A0;
  AliasOf[0][1] = A1;
  AliasOf[1][0] = A1;
  AliasOf[1][1] = A0;
  Set Want;
  if (IsLoad && TypeMatches.get(A0, "type matches"))
    Want.insert(Slot);
  if (pv::flip("first alias is stored")) {
    auto *St = F.store(A0, Dst);
    F.use(St, 0);
    if (!IsLoad && TypeMatches.get(St, "type matches"))
      Want.insert(Dst);
  }
  unsigned N = pv::choose(3, "second alias is stored");
  pv_note_bounded_("alias sets of two members, at most two stores each");
  for (unsigned I = 0; I < N; ++I) {
    auto *St = F.store(A1, I ? Dst2 : Dst);
    F.use(St, 0);
    if (TypeMatches.get(St, "type matches"))
      Want.insert(I ? Dst2 : Dst);
  }
  if (pv::flip("second alias is used otherwise"))
    F.use(F.load(A1, F.P), 0);
  Value *Q[] = {A0, A1};
  V First = Q[pv::choose(2, "queried first")];
  is(F.A.getRelevantAllocas(First), Want,
     "the relevant allocas are where aliases are loaded from or stored to");
  is(F.A.getRelevantAllocas(A0), Want, "asking again yields the same allocas");
  is(F.A.getRelevantAllocas(A1), Want, "aliases have the same allocas");
}
PVC_CONTRACT(whole_module_aliases) {
  Fx F;
  Value *A0 = F.W.arg(F.P), *A1 = F.W.arg(F.P), *B0 = F.W.arg(F.P);
  Set Want;
  F.AA.Sets[0].insert(A0);
  Want.insert(A0);
  if (pv::flip("has an alias")) {
    F.AA.Sets[0].insert(A1);
    Want.insert(A1);
  } else {
    F.AA.Sets[1].insert(A1);
  }
  F.AA.Sets[1].insert(B0);
  pv_note_bounded_("two alias sets over three pointers");
  Value *Q[] = {A0, A1, B0};
  (void)F.A.getWMAliasSet(Q[pv::choose(3, "queried before")]);
  is(F.A.getWMAliasSet(A0), Want, "aliases are those of the alias information");
  is(F.A.getWMAliasSet(A0), Want, "asking again yields the same aliases");
}
PVC_CONTRACT(aliases_and_allocas) {
  Fx F;
  Value *A0 = F.W.arg(F.P), *A1 = F.W.arg(F.P), *Al = F.W.arg(F.P);
  pv::replace(&Base::getRelevantAllocas, &fakeRelevant);
  pv::replace(&Base::getWMAliasSet, &fakeWM);
  Set Want{A0}, Local;
  AliasOf[0][0] = A0;
  if (pv::flip("has an alias")) {
    AliasOf[0][1] = A1;
    Want.insert(A1);
  }
  AllocaOf[0][0] = A0;
  if (pv::flip("has an alloca")) {
    AllocaOf[0][1] = Al;
    Want.insert(Al);
    Local.insert(Al);
  }
  is(F.A.getWMAliasesAndAllocas(A0), Want,
     "both aliases and relevant allocas are found");
  is(F.A.getLocalAliasesAndAllocas(A0, "f"), Local,
     "relevant allocas are found");
}
PVC_CONTRACT(type_name) {
  Fx F(false);
  auto *S = F.W.structTy({F.I32});
  bool Is = pv::flip("the type of interest");
  static bool IsIt;
  IsIt = Is;
  struct N {
    static llvm::StringRef name(const llvm::StructType *) {
      return IsIt ? "struct.T" : "struct.U";
    }
  };
  pv::replace(&llvm::StructType::getName, &N::name);
  pv::ensures(F.A.hasMatchingTypeName(S) == Is,
              "struct types match by their name");
}
