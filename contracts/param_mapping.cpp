// Contracts: parameter mappings (include/phasar/PhasarLLVM/DataFlow/IfdsIde/
// LLVMFlowFunctions.h): mapFactsToCallee, mapFactsToCaller,
// mapFactsAlongsideCallSite.
//
// Call sites, signatures and bodies are fabricated with at most two formals
// and two variadic actuals; which values the actuals are (locals, globals,
// constants, duplicates), the user predicates (uninterpreted relations), the
// fact and the configuration flags are arbitrary.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"

using namespace psr;
using llvm::Value;

namespace {
/// A field-sensitive fact, like IDEIIAFlowFact; its moved-from state is
/// visible.
struct Fact {
  const Value *Base = nullptr;
  uint64_t Field = 0;
  Fact() = default;
  Fact(const Value *V) : Base(V) {}
  Fact(const Value *V, uint64_t F) : Base(V), Field(F) {}
  Fact(const Fact &) = default;
  Fact(Fact &&O) noexcept : Base(O.Base), Field(O.Field) { O.Field = ~0ull; }
  Fact &operator=(const Fact &) = default;
  operator const Value *() const { return Base; }
  friend bool operator==(const Fact &A, const Fact &B) {
    return A.Base == B.Base && A.Field == B.Field;
  }
  friend bool operator==(const Value *A, const Fact &B) { return Fact(A) == B; }
  friend bool operator<(const Fact &A, const Fact &B) {
    return A.Base != B.Base ? A.Base < B.Base : A.Field < B.Field;
  }
};
} // namespace
namespace llvm {
template <> struct simplify_type<Fact> {
  using SimpleType = const Value *;
  static SimpleType getSimplifiedValue(const Fact &F) { return F.Base; }
};
template <> struct simplify_type<const Fact> : simplify_type<Fact> {};
} // namespace llvm

namespace {
const LLVMZeroValue *Zero;
const LLVMZeroValue *fakeZero() { return Zero; }
const void *VaTag;
const void *SRetArg;
bool fakeSRet(const llvm::Argument *A) { return A == SRetArg; }
llvm::StringRef fakeStructName(const llvm::StructType *T) {
  return T == VaTag ? llvm::StringRef("struct.__va_list_tag")
                    : llvm::StringRef("struct.other");
}
uint64_t bits(const Value *V) { return reinterpret_cast<uint64_t>(V); }
uint64_t key(const Value *V) { return bits(V); }
uint64_t key(const Fact &F) { return bits(F.Base) * 2 + F.Field; }
/// an arbitrary relation between values and facts
struct Entry {
  const char *N;
  uint64_t V, X;
  bool R;
} Rel[16];
unsigned NRel;
bool relKey(const char *N, uint64_t V, uint64_t X) {
  for (unsigned I = 0; I < NRel; ++I)
    if (Rel[I].N == N && Rel[I].V == V && Rel[I].X == X)
      return Rel[I].R;
  if (NRel == 16)
    pv_abort_path_("too many relation entries");
  Rel[NRel++] = Entry{N, V, X, pv::flip(N)};
  return Rel[NRel - 1].R;
}
template <typename D> bool rel(const char *N, const Value *V, const D &X) {
  return relKey(N, bits(V), key(X));
}
template <typename D> D mkFact(const Value *V);
template <> const Value *mkFact(const Value *V) { return V; }
template <> Fact mkFact(const Value *V) { return Fact(V, pv::choose(2, "field")); }

/// The fabricated call.
struct Call {
  pv::ir::World W;
  uint64_t NP, NV; // formals, variadic actuals
  llvm::Function *F;
  llvm::CallInst *CS;
  Value *Args[5];
  Value *Local, *Other;
  llvm::GlobalVariable *Glob;
  llvm::AllocaInst *Va = nullptr, *Plain = nullptr, *OtherAlloca = nullptr;
  llvm::BasicBlock *BB = nullptr;
  bool SRet = false;
  llvm::IntegerType *I32;
  llvm::Type *P;

  Call(uint64_t MaxVar, bool Body, bool Returns) {
    pv_note_bounded_("at most two formals and two variadic actuals per call");
    NRel = 0;
    SRetArg = nullptr;
    pv::replace(&llvm::Argument::hasStructRetAttr, &fakeSRet);
    I32 = W.intTy(32);
    P = W.ptrTy(I32);
    Zero = reinterpret_cast<const LLVMZeroValue *>(W.gvar(P, nullptr));
    pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
    Local = W.arg(P);
    Other = W.arg(P);
    Glob = W.gvar(P, nullptr);
    NP = pv::choose(3, "formals");
    NV = MaxVar ? pv::choose(MaxVar + 1, "variadic actuals") : 0;
    // A call needs no variadic actual to call a variadic function.
    bool VarArg = NV != 0;
    llvm::Type *Ps[2] = {P, P};
    auto *FT = W.fnTy(Returns ? static_cast<llvm::Type *>(P) : W.voidTy(), Ps,
                      NP, VarArg);
    F = W.func(FT, 0, true);
    if (Body) {
      BB = W.block(F);
      auto *St = W.structTy({I32});
      auto *St2 = W.structTy({I32});
      VaTag = St;
      pv::replace(&llvm::StructType::getName, &fakeStructName);
      Plain = W.alloca_(I32, W.constInt(I32, 1));
      OtherAlloca = W.alloca_(arr(St2, 1), W.constInt(I32, 1));
      W.append(BB, Plain);
      W.append(BB, OtherAlloca);
      if (NV != 0 && pv::flip("callee reads its variadic arguments")) {
        if (pv::flip("in a later block"))
          BB = W.block(F);
        Va = W.alloca_(arr(St, 1), W.constInt(I32, 1));
        W.append(BB, Va);
      }
    }
    for (uint64_t I = 0; I < NP + NV; ++I)
      Args[I] = I == 0 ? (pv::flip("global actual") ? static_cast<Value *>(Glob)
                                                    : Local)
                       : pick(I);
    CS = W.call(FT, F, Args, NP + NV);
  }
  Value *pick(uint64_t I) {
    if (I == 1 && pv::flip("duplicate actual"))
      return Args[0];
    return W.arg(P);
  }
  llvm::Type *arr(llvm::Type *El, uint64_t N) {
    struct RawArr : pv::ir::RawType {
      uint64_t N;
    };
    auto *T = static_cast<RawArr *>(W.raw(sizeof(RawArr) + 8));
    auto *R = W.rawType(llvm::Type::ArrayTyID);
    static_cast<pv::ir::RawType &>(*T) = *R;
    auto **C = static_cast<void **>(W.raw(8));
    C[0] = El;
    T->Contained = C;
    T->NumContained = 1;
    // ArrayType: {Type, ContainedType, NumElements}
    T->Pointee = El;
    T->N = N;
    return reinterpret_cast<llvm::Type *>(static_cast<pv::ir::RawType *>(T));
  }
  llvm::Argument *formal(uint64_t I) { return F->getArg(I); }
  /// an arbitrary fact of the caller
  const Value *callerFact() {
    switch (uint64_t K = pv::choose(3 + NP + NV, "fact")) {
    case 0:
      return Zero;
    case 1:
      return Other;
    case 2:
      return Glob;
    default:
      return Args[K - 3];
    }
  }
};

template <typename D> struct Want {
  std::set<D> S;
  void add(const D &X) { S.insert(X); }
  void is(const std::set<D> &R, const char *L) {
    bool Eq = R.size() == S.size();
    for (const D &X : S)
      Eq = Eq && R.count(X);
    pv::ensures(Eq, L);
  }
};
template <typename D> bool isZero(const D &X) {
  return static_cast<const Value *>(X) == Zero;
}
template <typename D> bool isConst(const D &X) {
  return llvm::isa<llvm::Constant>(static_cast<const Value *>(X));
}
/// a fact constructor that is visible in the result
struct Tag {
  const Value *operator()(const Value *V) const {
    return reinterpret_cast<const Value *>(bits(V) + 1);
  }
};
struct TagF {
  Fact operator()(const Value *V) const { return Fact(V, 7); }
};

// ---- alongside -------------------------------------------------------------
template <typename D, typename Ctor> void alongside(Ctor Mk) {
  Call C(1, false, true);
  bool Globals = pv::flip("propagate globals");
  unsigned Mode = pv::choose(2, "predicate given");
  auto Pred = [](const Value *V) {
    return relKey("arg", bits(V), 0);
  };
  FlowFunctionPtrType<D> FF;
  if (Mode)
    FF = mapFactsAlongsideCallSite<D>(C.CS, Pred, Globals, Mk);
  else
    FF = mapFactsAlongsideCallSite<D>(C.CS, TrueFn{}, Globals, Mk);
  D X = mkFact<D>(C.callerFact());
  std::set<D> R = FF->computeTargets(X);
  Want<D> Wt;
  if (isZero(X)) {
    Wt.add(X);
  } else if (isConst(X)) {
    if (Globals)
      Wt.add(X);
  } else {
    bool IsArg = false;
    for (uint64_t I = 0; I < C.NP + C.NV; ++I)
      IsArg |= C.Args[I] == X;
    if (!IsArg)
      Wt.add(X);
    else if (!Mode || Pred(X))
      Wt.add(Mk(X));
  }
  Wt.is(R, "mapFactsAlongsideCallSite: zero and unrelated facts stay, globals "
           "and arguments as configured");
}

// ---- to callee -------------------------------------------------------------
template <typename D, typename Pred, typename Ctor>
void toCallee(Pred P, Ctor Mk) {
  bool Body = pv::flip("callee has a body");
  Call C(2, Body, false);
  if (C.NP && pv::flip("sret")) {
    C.SRet = true;
    SRetArg = C.formal(0);
  }
  const Value *XV = C.callerFact();
  bool Globals = !isConst(XV) || pv::flip("propagate globals"),
       ZeroP = XV != Zero || pv::flip("propagate zero");
  auto FF = mapFactsToCallee<D>(C.CS, C.F, Pred(P), Ctor(Mk), Globals, ZeroP);
  D X = mkFact<D>(XV);
  std::set<D> R = FF->computeTargets(X);
  Want<D> Wt;
  if (Body) {
    if (isZero(X) ? ZeroP : (isConst(X) && Globals))
      Wt.add(X);
    for (uint64_t I = C.SRet; I < C.NP; ++I)
      if (P(C.Args[I], X))
        Wt.add(Mk(C.formal(I)));
    bool AnyVar = false;
    for (uint64_t I = C.NP; I < C.NP + C.NV; ++I)
      AnyVar = AnyVar || P(C.Args[I], X);
    if (AnyVar && C.Va)
      Wt.add(Mk(C.Va));
  }
  Wt.is(R, "mapFactsToCallee: exactly the formals whose actuals the fact "
           "affects, globals and zero as configured");
}

// ---- to caller -------------------------------------------------------------
template <typename D, typename Pred, typename Ret, typename Ctor>
void toCaller(Pred P, Ret RP, Ctor Mk) {
  Call C(2, true, true);
  Value *RV = nullptr;
  llvm::Instruction *Exit;
  switch (pv::choose(4, "exit")) {
  case 0:
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {});
    break;
  case 1:
    RV = C.NP && pv::flip("returns a formal") ? static_cast<Value *>(C.formal(0))
                                              : C.Plain;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  case 2:
    RV = C.Glob;
    Exit = C.W.inst(llvm::Instruction::Ret, C.W.voidTy(), {RV});
    break;
  default:
    Exit = C.W.inst(llvm::Instruction::Resume, C.W.voidTy(), {C.Plain});
  }
  C.W.append(C.BB, Exit);
  const Value *V;
  switch (uint64_t K = pv::choose(4 + C.NP, "fact")) {
  case 0:
    V = Zero;
    break;
  case 1:
    V = C.Plain;
    break;
  case 2:
    V = C.Glob;
    break;
  case 3:
    V = C.Va ? C.Va : C.OtherAlloca;
    break;
  default:
    V = C.formal(K - 4);
  }
  bool Globals = !isConst(V) || pv::flip("propagate globals"),
       ZeroP = V != Zero || pv::flip("propagate zero");
  uint64_t Posts = 0;
  auto Post = [&Posts](std::set<D> &) { ++Posts; };
  auto FF = mapFactsToCaller<D>(C.CS, Exit, Pred(P), Ret(RP), Ctor(Mk), Globals,
                                ZeroP, Post);
  D X = mkFact<D>(V);
  std::set<D> R = FF->computeTargets(X);
  Want<D> Wt;
  if (isZero(X) ? ZeroP : (isConst(X) && Globals))
    Wt.add(X);
  for (uint64_t I = 0; I < C.NP; ++I)
    if (P(C.formal(I), X))
      Wt.add(Mk(C.Args[I]));
  if (C.NV && C.Va && P(C.Va, X))
    for (uint64_t I = C.NP; I < C.NP + C.NV; ++I)
      Wt.add(Mk(C.Args[I]));
  if (RV && RP(RV, X))
    Wt.add(Mk(C.CS));
  Wt.is(R, "mapFactsToCaller: exactly the actuals of the affected formals and "
           "the returned value, globals and zero as configured");
  pv::ensures(Posts == 1, "the result is post-processed once");
}
struct AnyRel {
  const char *N;
  template <typename D> bool operator()(const Value *V, const D &X) const {
    return rel(N, V, X);
  }
};
using V = const Value *;
struct EqV {
  bool operator()(V A, V B) const { return A == B; }
};
} // namespace

PVC_CONTRACT(alongside_value) { alongside<V>(DefaultConstruct<V>{}); }
PVC_CONTRACT(alongside_tagged) { alongside<V>(Tag{}); }
PVC_CONTRACT(alongside_fields) { alongside<Fact>(TagF{}); }
PVC_CONTRACT(callee_default) {
  toCallee<V>(std::equal_to<V>{}, DefaultConstruct<V>{});
}
PVC_CONTRACT(callee_any) { toCallee<V>(AnyRel{"arg"}, Tag{}); }
PVC_CONTRACT(callee_fields) { toCallee<Fact>(AnyRel{"arg"}, TagF{}); }
PVC_CONTRACT(caller_default) {
  toCaller<V>(std::equal_to<V>{}, std::equal_to<V>{}, DefaultConstruct<V>{});
}
PVC_CONTRACT(caller_any) { toCaller<V>(AnyRel{"arg"}, AnyRel{"ret"}, Tag{}); }
PVC_CONTRACT(caller_fields) {
  toCaller<Fact>(AnyRel{"arg"}, AnyRel{"ret"}, TagF{});
}
