// Contracts: the generic type-state analysis
// (include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h)
//
// The automaton is arbitrary: states are arbitrary 32-bit numbers and the
// transition function is uninterpreted.  Edge functions are obtained through
// the analysis' own interface.
#include "pv/efspec.h"
#include "pv/lattices.h"
#include "pv/llvmir.h"

#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/Pointer/AliasInfo.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"

// declared "extern template" in the header; instantiated from its bodies here
template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;

using namespace psr;
using pv::Lat;

namespace pv {
/// State type with fixed top and bottom (JoinLatticeTraits) ...
enum class StA : uint32_t { TOP = 42, BOT = 7 };
/// ... and without: top and bottom are known to the description only.
enum class StB : uint32_t {};
llvm::StringRef to_string(StA) noexcept { return "A"; }
llvm::StringRef to_string(StB) noexcept { return "B"; }
uint32_t BTop = 42, BBot = 9;
template <typename S> struct Special;
template <> struct Special<StA> {
  static StA top() { return StA::TOP; }
  static StA bot() { return StA::BOT; }
};
template <> struct Special<StB> {
  static StB top() { return StB(BTop); }
  static StB bot() { return StB(BBot); }
};
template <typename S> struct StLat {
  using P = Special<S>;
  static S any(const char *N) { return S(pv::any<uint32_t>(N)); }
  static S apply(uint64_t Fn, S X) {
    return S(uint32_t(pv_uf2("ef_st", Fn, uint64_t(X))));
  }
  static bool eq(S A, S B) { return A == B; }
  static bool geq(S A, S B) {
    return pv_or_(pv_or_(A == P::bot(), B == P::top()), A == B);
  }
  static S join(S A, S B) {
    return S(pv_ite_(pv_or_(A == B, B == P::top()), uint64_t(A),
                     pv_ite_(A == P::top(), uint64_t(B), uint64_t(P::bot()))));
  }
};
template <> struct Lat<StA> : StLat<StA> {};
template <> struct Lat<StB> : StLat<StB> {};
} // namespace pv
using pv::StA;
using pv::StB;
namespace psr {
template <> struct JoinLatticeTraits<StA> {
  static constexpr StA top() noexcept { return StA::TOP; }
  static constexpr StA bottom() noexcept { return StA::BOT; }
  static StA join(StA L, StA R) noexcept { return Lat<StA>::join(L, R); }
};
} // namespace psr

namespace {
alignas(16) char ZeroBuf[256];
const LLVMZeroValue *fakeZero() {
  return reinterpret_cast<const LLVMZeroValue *>(ZeroBuf);
}
const llvm::Value *zero() { return LLVMZeroValue::getInstance(); }

// --- names: the symbol of function k is "_<x>", its demangled name "<x>" ---
const llvm::Value *NamedFn[3];
const char *SymName[3] = {"_f", "_g", "_fg"};
const char *PlainName[3] = {"f", "g", "fg"};
llvm::StringRef fakeGetName(const llvm::Value *V) {
  for (int I = 0; I < 3; ++I)
    if (V == NamedFn[I])
      return SymName[I];
  return "?";
}
std::string fakeDemangle(const std::string &S) {
  for (int I = 0; I < 3; ++I)
    if (S == SymName[I])
      return PlainName[I];
  return S;
}
uint64_t tokenId(llvm::StringRef S) {
  for (int I = 0; I < 3; ++I)
    if (S == PlainName[I])
      return I;
  pv::ensures(false, "the automaton is asked about the name of the callee");
  return 99;
}

// --- an arbitrary automaton ------------------------------------------------
enum Role { Factory, Consumer, Both, Other, NRoles };
Role Roles[3] = {Other, Other, Other};
int ConsumedParam = 0;
template <typename S> struct AnyTSD {
  using State = S;
  using P = pv::Special<S>;
  State Uninit = S(pv::any<uint32_t>("uninit"));
  bool isFactoryFunction(llvm::StringRef F) const {
    Role R = Roles[tokenId(F) % 3];
    return R == Factory || R == Both;
  }
  bool isConsumingFunction(llvm::StringRef F) const {
    Role R = Roles[tokenId(F) % 3];
    return R == Consumer || R == Both;
  }
  bool isAPIFunction(llvm::StringRef F) const {
    return Roles[tokenId(F) % 3] != Other;
  }
  std::set<int> getConsumerParamIdx(llvm::StringRef F) const {
    if (!isConsumingFunction(F))
      return {};
    return {ConsumedParam};
  }
  std::string getTypeNameOfInterest() const { return "T"; }
  static State delta(uint64_t Tok, State X, const void *CS) {
    return S(uint32_t(
        pv_uf3("delta", Tok, uint64_t(X), reinterpret_cast<uint64_t>(CS))));
  }
  State getNextState(llvm::StringRef Tok, State X) const {
    return getNextState(Tok, X, nullptr);
  }
  State getNextState(llvm::StringRef Tok, State X,
                     const llvm::CallBase *CS) const {
    pv::ensures(X != P::top(),
                "the automaton is never run from the no-information element");
    return delta(tokenId(Tok), X, CS);
  }
  State bottom() const { return P::bot(); }
  State top() const { return P::top(); }
  State uninit() const { return Uninit; }
  State start() const { return Uninit; }
  State error() const { return S(3); }
  DataFlowAnalysisType analysisType() const {
    return DataFlowAnalysisType::IDECSTDIOTypeStateAnalysis;
  }
};

struct Access : detail::IDETypeStateAnalysisBase {
  static auto aliases() { return &Access::getWMAliasesAndAllocas; }
  static auto matching() { return &Access::hasMatchingType; }
};
const llvm::Value *AliasOf[2][2]; // per argument: itself and one alias
std::set<const llvm::Value *> fakeAliases(void *, const llvm::Value *V) {
  for (auto &A : AliasOf)
    if (A[0] == V)
      return {A[0], A[1]};
  return {V};
}
bool Matching;
bool fakeMatching(void *, const llvm::Value *) { return Matching; }

template <typename S> struct Fixture {
  using EF = EdgeFunction<S>;
  using TSA = IDETypeStateAnalysis<AnyTSD<S>>;
  using P = pv::Special<S>;
  pv::ir::World W;
  AnyTSD<S> D;
  char IRDBBuf[64] = {};
  alignas(16) char PTBuf[64] = {};
  alignas(TSA) char PBuf[sizeof(TSA)];
  TSA *Pr = nullptr;
  llvm::Function *Fn[3];
  llvm::CallInst *Call[2];
  llvm::Value *Args[2], *Unrelated;
  llvm::AllocaInst *Al[2], *Al3;

  Fixture() {
    reinterpret_cast<pv::ir::RawValue *>(ZeroBuf)->SubclassID =
        llvm::Value::GlobalVariableVal;
    pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
    pv::replace(&llvm::Value::getName, &fakeGetName);
    pv::replace(static_cast<std::string (*)(const std::string &)>(
                    &llvm::demangle),
                &fakeDemangle);
    pv::replace(Access::aliases(), &fakeAliases);
    pv::replace(Access::matching(), &fakeMatching);
    pv_note_assumption_("alias queries (getWMAliasesAndAllocas), type matching, "
                        "demangling and value names are arbitrary maps");
    if (std::is_same_v<S, StB>)
      pv::assume(D.Uninit != P::top());
    else
      pv::assume(D.Uninit != P::top());
    LLVMAliasInfoRef PT;
    // a non-null alias information whose methods are never reached
    void *Raw[2] = {PTBuf, PTBuf};
    static_assert(sizeof(PT) == sizeof(Raw), "");
    std::memcpy(static_cast<void *>(&PT), Raw, sizeof(Raw));
    Pr = new (PBuf) TSA(reinterpret_cast<const LLVMProjectIRDB *>(IRDBBuf), PT,
                        &D, {});
    auto *I8 = W.intTy(8);
    llvm::Type *PtrT = W.ptrTy(I8);
    llvm::Type *Ps[2] = {PtrT, PtrT};
    auto *FT = W.fnTy(PtrT, Ps, 2);
    for (int I = 0; I < 3; ++I)
      NamedFn[I] = Fn[I] = W.func(FT);
    Args[0] = W.arg(PtrT);
    Args[1] = W.arg(PtrT);
    Unrelated = W.arg(PtrT);
    auto *One = W.constInt(W.intTy(32), 1);
    for (int I = 0; I < 2; ++I) {
      Call[I] = W.call(FT, Fn[0], Args, 2);
      Al[I] = W.alloca_(PtrT, One);
      AliasOf[I][0] = Args[I];
      AliasOf[I][1] = Al[I];
    }
    Al3 = W.alloca_(PtrT, One);
  }
  /// Edge function of callee K at call site C for a consumed argument.
  EF step(int K, int C) {
    Roles[K] = Consumer;
    ConsumedParam = 0;
    const llvm::Function *Cs[1] = {Fn[K]};
    return Pr->getCallToRetEdgeFunction(Call[C], Args[0], nullptr, Args[0],
                                        Cs);
  }
  EF uninitEF() {
    Matching = true;
    return Pr->getNormalEdgeFunction(Al3, zero(), nullptr, Al3);
  }
  EF factoryEF(int K, int C) {
    Roles[K] = Factory;
    const llvm::Function *Cs[1] = {Fn[K]};
    return Pr->getCallToRetEdgeFunction(Call[C], zero(), nullptr, Call[C], Cs);
  }
  S run(int K, int C, S X) {
    return AnyTSD<S>::delta(
        K, S(pv_ite_(X == P::top(), uint64_t(D.Uninit), uint64_t(X))),
        Call[C]);
  }
};
Fixture<StA> *TheA;
Fixture<StB> *TheB;
template <typename S> Fixture<S> &fix();
template <> Fixture<StA> &fix<StA>() { return *TheA; }
template <> Fixture<StB> &fix<StB>() { return *TheB; }
template <typename S> struct Fx {
  Fixture<S> F;
  Fx();
};
template <> Fx<StA>::Fx() { TheA = &F; }
template <> Fx<StB>::Fx() { TheB = &F; }

enum Kinds { KId, KTop, KBot, KStep, KUninit, KConst, KSeq, KAny, NKinds };
template <typename S> struct TS {
  static constexpr int NKinds = ::NKinds;
  static EdgeFunction<S> make(uint64_t K, const char *N) {
    auto &F = fix<S>();
    switch (K) {
    case KId:
      return EdgeIdentity<S>{};
    case KTop:
      return F.Pr->allTopFunction();
    case KBot:
      if constexpr (HasJoinLatticeTraits<S>)
        return AllBottom<S>{};
      else
        return AllBottom<S>{F.D.bottom()};
    case KStep:
      return F.step(pv::choose(2, N), pv::choose(2, N));
    case KUninit:
      return F.uninitEF();
    case KConst:
      return F.factoryEF(pv::choose(2, N), 0);
    case KSeq:
      return F.step(pv::choose(2, N), 0).composeWith(F.step(pv::choose(2, N), 1));
    default:
      return pv::AnyEF<S>{pv::any<uint32_t>(N)};
    }
  }
};
} // namespace

// ---- what each edge function computes -------------------------------------
namespace {
template <typename S> void stepSpec() {
  Fx<S> W;
  auto &F = fix<S>();
  int K = pv::choose(3, "callee"), C = pv::choose(2, "call");
  auto E = F.step(K, C);
  S X = Lat<S>::any("x");
  pv::ensures(E.computeTarget(X) == F.run(K, C, X),
              "a call moves the object to the automaton's next state");
  // sequences of three calls, composed in either order
  int K2 = pv::choose(2, "callee2"), K3 = pv::choose(2, "callee3");
  auto E2 = F.step(K2, 1), E3 = F.step(K3, 0);
  S Want = F.run(K3, 0, F.run(K2, 1, F.run(K, C, X)));
  pv::ensures(E.composeWith(E2).composeWith(E3).computeTarget(X) == Want,
              "composed calls equal running the calls one after another");
  pv::ensures(E.composeWith(E2.composeWith(E3)).computeTarget(X) == Want,
              "composed calls equal running the calls one after another");
}
template <typename S> void constSpec() {
  Fx<S> W;
  auto &F = fix<S>();
  S X = Lat<S>::any("x");
  pv::ensures(F.uninitEF().computeTarget(X) == F.D.Uninit,
              "an allocated object is uninitialized");
  int K = pv::choose(3, "callee"), C = pv::choose(2, "call");
  auto E = F.factoryEF(K, C);
  S V = AnyTSD<S>::delta(K, F.D.Uninit, F.Call[C]);
  pv::ensures(E.computeTarget(X) == V,
              "a factory's result is in the state reached from uninitialized");
  auto E2 = F.step(pv::choose(2, "callee2"), 1);
  pv::ensures(E.composeWith(E2).computeTarget(X) == E2.computeTarget(V),
              "calls after the factory run the automaton from its result");
}
/// The right edge function for the right pair of facts.
template <typename S> void selection() {
  Fx<S> W;
  auto &F = fix<S>();
  for (int I = 0; I < 2; ++I)
    Roles[I] = Role(pv::choose(NRoles, "role"));
  ConsumedParam = pv::choose(2, "param");
  const llvm::Function *Cs[2] = {F.Fn[0], F.Fn[1]};
  size_t N = pv::choose(3, "callees");
  pv_note_bounded_("call sites with at most two callees");
  const llvm::Value *From[] = {zero(), F.Args[0], F.Args[1], F.Al[0], F.Al[1],
                               F.Unrelated, F.Call[0]};
  const llvm::Value *A = From[pv::choose(7, "from")],
                    *B = From[pv::choose(7, "to")];
  auto E = F.Pr->getCallToRetEdgeFunction(F.Call[0], A, nullptr, B,
                                          llvm::ArrayRef<const llvm::Function *>(Cs, N));
  S X = Lat<S>::any("x");
  S Got = E.computeTarget(X);
  bool Ok = false, Relevant = false;
  for (size_t I = 0; I < N; ++I) {
    bool Fac = Roles[I] == Factory || Roles[I] == Both;
    bool Con = Roles[I] == Consumer || Roles[I] == Both;
    if (Fac && A == zero() && B == F.Call[0]) {
      Relevant = true;
      Ok = pv_or_(Ok, Got == AnyTSD<S>::delta(I, F.D.Uninit, F.Call[0]));
    } else if (Con && A == B &&
               (A == F.Args[ConsumedParam] || A == F.Al[ConsumedParam])) {
      Relevant = true;
      Ok = pv_or_(Ok, Got == F.run(I, 0, X));
    }
  }
  if (Relevant)
    pv::ensures(Ok, "the state changes as the called API function says");
  else
    pv::ensures(Got == X, "objects the call does not touch keep their state");
}
template <typename S> void untouched() {
  Fx<S> W;
  auto &F = fix<S>();
  S X = Lat<S>::any("x");
  const llvm::Value *V[] = {zero(), F.Args[0], F.Al[0], F.Al3};
  const llvm::Value *A = V[pv::choose(4, "from")], *B = V[pv::choose(4, "to")];
  Matching = pv::flip("type matches");
  const llvm::Instruction *I =
      pv::flip("alloca") ? static_cast<llvm::Instruction *>(F.Al3)
                         : static_cast<llvm::Instruction *>(F.Call[0]);
  auto E = F.Pr->getNormalEdgeFunction(I, A, nullptr, B);
  if (I == F.Al3 && Matching && A == zero() && B == F.Al3)
    pv::ensures(E.computeTarget(X) == F.D.Uninit,
                "an allocated object is uninitialized");
  else
    pv::ensures(E.computeTarget(X) == X, "other statements keep the state");
  auto C = F.Pr->getCallEdgeFunction(F.Call[0], A, F.Fn[0], B);
  auto R = F.Pr->getReturnEdgeFunction(F.Call[0], F.Fn[0], nullptr, A, nullptr, B);
  pv::ensures(C.computeTarget(X) == X && R.computeTarget(X) == X,
              "entering and leaving a function keeps the state");
}
template <typename S> void valueJoin() {
  Fx<S> W;
  auto &F = fix<S>();
  S X = Lat<S>::any("x"), Y = Lat<S>::any("y"), Z = Lat<S>::any("z");
  auto &P = *F.Pr;
  S J = P.join(X, Y);
  pv::ensures(J == P.join(Y, X), "merging states is commutative");
  pv::ensures(P.join(X, X) == X, "merging states is idempotent");
  pv::ensures(P.join(J, Z) == P.join(X, P.join(Y, Z)),
              "merging states is associative");
  pv::ensures(P.join(P.topElement(), X) == X, "top is neutral");
  pv::ensures(P.join(P.bottomElement(), X) == P.bottomElement(),
              "bottom absorbs");
  if (X != Y && X != P.topElement() && Y != P.topElement())
    pv::ensures(J == P.bottomElement(),
                "conflicting states merge to the unknown element");
  pv::ensures(P.topElement() == F.D.top() && P.bottomElement() == F.D.bottom(),
              "top and bottom are the automaton's");
  pv::ensures(P.allTopFunction().computeTarget(X) == F.D.top(),
              "the all-top function yields no information");
}
} // namespace
#define BOTH(NAME, FN)                                                         \
  PVC_CONTRACT(NAME##_fixed) { FN<StA>(); }                                    \
  PVC_CONTRACT(NAME##_described) { FN<StB>(); }
BOTH(step, stepSpec)
BOTH(constant, constSpec)
BOTH(select, selection)
BOTH(untouched, untouched)
BOTH(value_join, valueJoin)

// ---- algebra --------------------------------------------------------------
using SA = pv::EFSpec<StA, TS<StA>>;
#define K(NAME, KIND)                                                          \
  PVC_CONTRACT(alg_compose_##NAME) {                                           \
    Fx<StA> W;                                                                 \
    SA::compose(KIND, pv::choose(NKinds, "kind2"));                            \
  }                                                                            \
  PVC_CONTRACT(alg_join_##NAME) {                                              \
    Fx<StA> W;                                                                 \
    SA::join(KIND, pv::choose(NKinds, "kind2"));                               \
  }                                                                            \
  PVC_CONTRACT(alg_equality_##NAME) {                                          \
    Fx<StA> W;                                                                 \
    SA::equality(KIND, pv::choose(NKinds, "kind2"));                           \
  }
K(step, KStep)
K(uninit, KUninit)
K(const, KConst)
K(seq, KSeq)
PVC_CONTRACT(alg_generic_with_own) {
  Fx<StA> W;
  uint64_t A = pv::choose(3, "k1"), B = KStep + pv::choose(4, "k2");
  if (pv::flip("join"))
    SA::join(A, B);
  else
    SA::compose(A, B);
}
PVC_CONTRACT(alg_idempotent) {
  Fx<StA> W;
  SA::idempotent(KStep + pv::choose(4, "k"));
}
