// Contracts: generic edge functions
// (include/phasar/DataFlow/IfdsIde/EdgeFunction.h, EdgeFunctionUtils.h)
#include "pv/lattices.h"

using namespace psr;
using pv::AnyConstEF;
using pv::AnyEF;
using pv::Flat;
using pv::Lat;
using pv::PSet;

namespace {
template <typename L> typename NonTopBotValue<L>::type anyConst(const char *N);
template <> int64_t anyConst<Flat>(const char *N) { return pv::any<int64_t>(N); }
template <> PSet anyConst<PSet>(const char *N) { return Lat<PSet>::any(N); }
template <> BinaryDomain anyConst<BinaryDomain>(const char *N) {
  return Lat<BinaryDomain>::any(N);
}

template <> pv::Wide anyConst<pv::WideFlat>(const char *N) {
  return Lat<pv::WideFlat>::anyWide(N);
}
template <> pv::WPSet anyConst<pv::WPSet>(const char *N) {
  return Lat<pv::WPSet>::any(N);
}

enum Kind { Id, Top_, Bot_, Const, Any, AnyC, NKinds };
template <typename L> EdgeFunction<L> mk(uint64_t K, const char *N) {
  switch (K) {
  case Id:
    return EdgeIdentity<L>{};
  case Top_:
    return AllTop<L>{};
  case Bot_:
    return AllBottom<L>{};
  case Const:
    return ConstantEdgeFunction<L>{anyConst<L>(N)};
  case Any:
    return AnyEF<L>{pv::any<uint32_t>(N)};
  default:
    return AnyConstEF<L>{pv::any<uint32_t>(N)};
  }
}
template <typename L> L top() { return JoinLatticeTraits<L>::top(); }
template <typename L> L bottom() { return JoinLatticeTraits<L>::bottom(); }
template <typename L>
void monotoneAtTop(const EdgeFunction<L> &F, const L &X) {
  pv::assume(Lat<L>::geq(F.computeTarget(X), F.computeTarget(top<L>())));
}

template <typename L> void composeSpec(uint64_t K1) {
  uint64_t K2 = pv::choose(NKinds, "kind2");
  auto F = mk<L>(K1, "f");
  auto S = mk<L>(K2, "g");
  L X = Lat<L>::any("x");
  if (K1 == Top_)
    monotoneAtTop(S, X);
  auto H = F.composeWith(S);
  pv::ensures(H.isValid(), "composition yields a function");
  L Want = S.computeTarget(F.computeTarget(X));
  L Got = H.computeTarget(X);
  pv::ensures(Lat<L>::geq(Got, Want),
              "composition over-approximates 'first, then second'");
  if (K1 != Top_ && K1 != Bot_)
    pv::ensures(Lat<L>::eq(Got, Want),
                "composition equals 'first, then second'");
  if (H.isConstant()) {
    L Y = Lat<L>::any("y");
    pv::ensures(Lat<L>::eq(H.computeTarget(Y), Got),
                "a composition that reports to be constant is constant");
  }
}

template <typename L> void joinSpec(uint64_t K1) {
  uint64_t K2 = pv::choose(NKinds, "kind2");
  auto F = mk<L>(K1, "f");
  auto G = mk<L>(K2, "g");
  L X = Lat<L>::any("x");
  auto J = F.joinWith(G);
  pv::ensures(J.isValid(), "join yields a function");
  L Got = J.computeTarget(X);
  pv::ensures(Lat<L>::geq(Got, F.computeTarget(X)),
              "join is above the first operand at every input");
  pv::ensures(Lat<L>::geq(Got, G.computeTarget(X)),
              "join is above the second operand at every input");
  if (K1 == Const && K2 == Const)
    pv::ensures(Lat<L>::eq(Got, Lat<L>::join(F.computeTarget(X),
                                             G.computeTarget(X))),
                "joining two constants is the lattice join of the constants");
  if (K1 == Top_)
    pv::ensures(Lat<L>::eq(Got, G.computeTarget(X)),
                "all-top is neutral for join (left)");
  if (K2 == Top_ && K1 < Any)
    pv::ensures(Lat<L>::eq(Got, F.computeTarget(X)),
                "all-top is neutral for join (right)");
  if (J.isConstant()) {
    L Y = Lat<L>::any("y");
    pv::ensures(Lat<L>::eq(J.computeTarget(Y), Got),
                "a join that reports to be constant is constant");
  }
}
template <typename L> void idempotentSpec(uint64_t K1) {
  auto F = mk<L>(K1, "f");
  auto G = F;
  L X = Lat<L>::any("x");
  if (K1 < Any)
    pv::ensures(Lat<L>::eq(F.joinWith(G).computeTarget(X), F.computeTarget(X)),
                "joining a function with itself changes nothing");
  pv::ensures(F == G, "a copy is equal to the original");
}
template <typename L> void equalitySpec(uint64_t K1) {
  uint64_t K2 = pv::choose(NKinds, "kind2");
  auto F = mk<L>(K1, "f");
  auto G = mk<L>(K2, "g");
  bool E = F == G;
  pv::ensures(E == (G == F), "equality is symmetric");
  pv::ensures(E != (F != G), "inequality is the negation of equality");
  if (E) {
    L X = Lat<L>::any("x");
    pv::ensures(Lat<L>::eq(F.computeTarget(X), G.computeTarget(X)),
                "equal edge functions compute equal values");
    pv::ensures(F.isConstant() == G.isConstant(),
                "equal edge functions agree on being constant");
  }
  if (F.isConstant()) {
    L X = Lat<L>::any("x"), Y = Lat<L>::any("y");
    pv::ensures(Lat<L>::eq(F.computeTarget(X), F.computeTarget(Y)),
                "an edge function that reports to be constant is constant");
  }
  if (!E)
    pv::ensures((F < G) || (G < F) || true, "ordering is total enough");
}

/// A client edge function built on EdgeFunctionComposer.
template <typename L> struct ClientComposer : EdgeFunctionComposer<L> {
  static EdgeFunction<L> join(EdgeFunctionRef<ClientComposer> This,
                              const EdgeFunction<L> &O) {
    return pv::AnyJoin<L>{This, O, 0};
  }
};
template <typename L> void composerSpec() {
  EdgeFunction<L> A = AnyEF<L>{pv::any<uint32_t>("a")};
  EdgeFunction<L> B = mk<L>(pv::choose(NKinds, "kindB"), "b");
  uint64_t KS = pv::choose(NKinds, "kindS");
  auto S = mk<L>(KS, "s");
  EdgeFunction<L> F = ClientComposer<L>{{A, B}};
  L X = Lat<L>::any("x");
  L FX = F.computeTarget(X);
  pv::ensures(Lat<L>::eq(FX, B.computeTarget(A.computeTarget(X))),
              "a composed function applies first, then second");
  if (llvm::isa<AllTop<L>>(B))
    monotoneAtTop(S, A.computeTarget(X));
  auto H = F.composeWith(S);
  L Got = H.computeTarget(X), Want = S.computeTarget(FX);
  pv::ensures(Lat<L>::geq(Got, Want),
              "composing a composed function over-approximates");
  if (!llvm::isa<AllTop<L>>(B) && !llvm::isa<AllBottom<L>>(B))
    pv::ensures(Lat<L>::eq(Got, Want), "composing a composed function is exact");
}

template <typename L> EdgeFunction<L> mkComposer(const char *N) {
  EdgeFunction<L> A = mk<L>(pv::choose(NKinds, N), N);
  EdgeFunction<L> B = mk<L>(Any, N);
  return ClientComposer<L>{{A, B}};
}
/// Any two functions of the generic algebra that compare equal compute alike.
template <typename L>
void equalPair(const EdgeFunction<L> &F, const EdgeFunction<L> &G) {
  bool E = F == G;
  pv::ensures(E == (G == F), "equality is symmetric");
  if (E) {
    pv::cover("two equal functions");
    L X = Lat<L>::any("x");
    pv::ensures(Lat<L>::eq(F.computeTarget(X), G.computeTarget(X)),
                "equal edge functions compute equal values");
  }
}
template <typename L> void composerEqualitySpec() {
  auto F = mkComposer<L>("f");
  auto G = pv::flip("composer") ? mkComposer<L>("g")
                                : mk<L>(pv::choose(NKinds, "kind"), "g");
  equalPair(F, G);
  pv::ensures(EdgeFunction<L>(F) == F, "a copy is equal to the original");
}

template <typename L, uint8_t N> EdgeFunction<L> mkJoin(const char *Nm) {
  JoinEdgeFunction<L, N> J;
  J.Seed = Lat<L>::any(Nm);
  uint64_t Len = pv::choose(N + 1, Nm);
  for (uint64_t I = 0; I < Len; ++I)
    J.OtherEF.push_back(AnyEF<L>{pv::any<uint32_t>(Nm)});
  return std::move(J);
}
template <typename L, uint8_t N> void joinEFEqualitySpec() {
  auto F = mkJoin<L, N>("f");
  auto G = pv::flip("join") ? mkJoin<L, N>("g")
                            : mk<L>(pv::choose(NKinds, "kind"), "g");
  equalPair(F, G);
  pv::ensures(EdgeFunction<L>(F) == F, "a copy is equal to the original");
}
template <typename L, uint8_t N> void joinEFSpec() {
  JoinEdgeFunction<L, N> J;
  J.Seed = Lat<L>::any("seed");
  uint64_t Len = pv::choose(N + 1, "len");
  L X = Lat<L>::any("x");
  L Want = J.Seed;
  for (uint64_t I = 0; I < Len; ++I) {
    J.OtherEF.push_back(AnyEF<L>{pv::any<uint32_t>("fn")});
    Want = Lat<L>::join(Want, J.OtherEF.back().computeTarget(X));
  }
  EdgeFunction<L> F = std::move(J);
  L FX = F.computeTarget(X);
  pv::ensures(Lat<L>::eq(FX, Want),
              "a joined function computes the join of its parts");
}
template <typename L, uint8_t N> void joinEFComposeSpec() {
  auto F = mkJoin<L, N>("f");
  L X = Lat<L>::any("x");
  uint64_t K = pv::choose(NKinds, "kind");
  auto S = mk<L>(K, "s");
  auto H = F.composeWith(S);
  pv::ensures(Lat<L>::eq(H.computeTarget(X),
                         S.computeTarget(F.computeTarget(X))),
              "composing a joined function equals 'first, then second'");
  // the other operand: arbitrary, or one of the two parts of the composition
  uint64_t W = pv::choose(3, "other");
  auto G = W == 0   ? F
           : W == 1 ? S
                    : mk<L>(pv::choose(NKinds, "kind3"), "g");
  auto J = H.joinWith(G);
  pv::ensures(Lat<L>::geq(J.computeTarget(X), H.computeTarget(X)) &&
                  Lat<L>::geq(J.computeTarget(X), G.computeTarget(X)),
              "joining a composed joined function is an upper bound");
}
template <typename L, uint8_t N> void joinEFJoinSpec() {
  auto F = mkJoin<L, N>("f");
  auto G = pv::flip("otherIsJoin") ? mkJoin<L, N>("g")
                                   : mk<L>(pv::choose(NKinds, "kind"), "g");
  L X = Lat<L>::any("x");
  bool Swap = pv::flip("swap");
  auto J = Swap ? G.joinWith(F) : F.joinWith(G);
  L Got = J.computeTarget(X);
  pv::ensures(Lat<L>::geq(Got, F.computeTarget(X)),
              "join with a joined function is above the joined function");
  pv::ensures(Lat<L>::geq(Got, G.computeTarget(X)),
              "join with a joined function is above the other function");
  if (const auto *P = llvm::dyn_cast<JoinEdgeFunction<L, N>>(J)) {
    pv::ensures(P->OtherEF.size() <= N,
                "a joined function never has more parts than configured");
    pv::ensures(Lat<L>::eq(Got, Lat<L>::join(F.computeTarget(X),
                                             G.computeTarget(X))),
                "a joined function is exactly the join of both operands");
  }
}
template <typename L, uint8_t N> void defaultHelpersSpec() {
  auto F = mk<L>(pv::choose(NKinds, "kind1"), "f");
  auto G = mk<L>(pv::choose(NKinds, "kind2"), "g");
  L X = Lat<L>::any("x");
  if (llvm::isa<AllTop<L>>(F))
    monotoneAtTop(G, X);
  if (auto H = defaultComposeOrNull(F, G)) {
    L Want = G.computeTarget(F.computeTarget(X));
    pv::ensures(Lat<L>::geq(H.computeTarget(X), Want),
                "default composition over-approximates");
    if (!llvm::isa<AllTop<L>>(F) && !llvm::isa<AllBottom<L>>(F))
      pv::ensures(Lat<L>::eq(H.computeTarget(X), Want),
                  "default composition is exact");
  }
  if (auto J = defaultJoinOrNull<L, N>(F, G)) {
    L Got = J.computeTarget(X);
    pv::ensures(Lat<L>::geq(Got, F.computeTarget(X)) &&
                    Lat<L>::geq(Got, G.computeTarget(X)),
                "default join is an upper bound");
  }
}
} // namespace

#define FOR_KINDS(NAME, L, SUFFIX)                                             \
  PVC_CONTRACT(NAME##_##SUFFIX##_identity) { NAME##Spec<L>(Id); }             \
  PVC_CONTRACT(NAME##_##SUFFIX##_alltop) { NAME##Spec<L>(Top_); }             \
  PVC_CONTRACT(NAME##_##SUFFIX##_allbottom) { NAME##Spec<L>(Bot_); }          \
  PVC_CONTRACT(NAME##_##SUFFIX##_constant) { NAME##Spec<L>(Const); }

FOR_KINDS(compose, PSet, pset)
FOR_KINDS(compose, pv::WideFlat, wide)
FOR_KINDS(compose, pv::WPSet, wpset)
FOR_KINDS(compose, Flat, flat)
FOR_KINDS(compose, BinaryDomain, binary)
FOR_KINDS(join, PSet, pset)
FOR_KINDS(join, pv::WideFlat, wide)
FOR_KINDS(join, pv::WPSet, wpset)
FOR_KINDS(join, Flat, flat)
FOR_KINDS(join, BinaryDomain, binary)
FOR_KINDS(idempotent, PSet, pset)
FOR_KINDS(idempotent, pv::WideFlat, wide)
FOR_KINDS(idempotent, pv::WPSet, wpset)
FOR_KINDS(idempotent, Flat, flat)
FOR_KINDS(equality, PSet, pset)
FOR_KINDS(equality, pv::WideFlat, wide)
FOR_KINDS(equality, pv::WPSet, wpset)
FOR_KINDS(equality, Flat, flat)

PVC_CONTRACT(composer_pset) { composerSpec<PSet>(); }
PVC_CONTRACT(composer_flat) { composerSpec<Flat>(); }
PVC_CONTRACT(composer_equality_pset) { composerEqualitySpec<PSet>(); }
PVC_CONTRACT(composer_equality_flat) { composerEqualitySpec<Flat>(); }
PVC_CONTRACT(joinef_equality_pset) { joinEFEqualitySpec<PSet, 2>(); }
PVC_CONTRACT(joinef_equality_flat) { joinEFEqualitySpec<Flat, 2>(); }
PVC_CONTRACT(joinef_apply_pset) { joinEFSpec<PSet, 3>(); }
PVC_CONTRACT(joinef_apply_flat) { joinEFSpec<Flat, 2>(); }
PVC_CONTRACT(joinef_compose_pset) { joinEFComposeSpec<PSet, 2>(); }
PVC_CONTRACT(joinef_compose_flat) { joinEFComposeSpec<Flat, 1>(); }
PVC_CONTRACT(joinef_join_pset) { joinEFJoinSpec<PSet, 2>(); }
PVC_CONTRACT(joinef_join_flat) { joinEFJoinSpec<Flat, 1>(); }
PVC_CONTRACT(default_helpers_pset) { defaultHelpersSpec<PSet, 0>(); }
PVC_CONTRACT(default_helpers_pset_n2) { defaultHelpersSpec<PSet, 2>(); }
PVC_CONTRACT(default_helpers_flat) { defaultHelpersSpec<Flat, 0>(); }
