// The edge-function algebra as a generic specification.
//   M::make(kind, name)   builds an arbitrary edge function of that kind
//   M::NKinds             number of kinds
//   M::exactCompose(f, g) whether compose must be exact (else: >=)
#pragma once
#include "pv/lattices.h"

namespace pv {
/// M::joinInput(x) may exclude inputs from the claims about joins.
template <typename M, typename L>
auto joinInput(const L &X, int) -> decltype(M::joinInput(X)) {
  return M::joinInput(X);
}
template <typename M, typename L> bool joinInput(const L &, long) {
  return true;
}
/// M::exact(f, g) may weaken exactness of a composition to soundness.
template <typename M, typename E>
auto exactHook(const E &F, const E &G, int) -> decltype(M::exact(F, G)) {
  return M::exact(F, G);
}
template <typename M, typename E> bool exactHook(const E &, const E &, long) {
  return true;
}
template <typename L, typename M> struct EFSpec {
  using EF = psr::EdgeFunction<L>;
  static L top() { return psr::JoinLatticeTraits<L>::top(); }
  static bool isTopOrBot(const EF &F) {
    return llvm::isa<psr::AllTop<L>>(F) || llvm::isa<psr::AllBottom<L>>(F);
  }
  static void compose(uint64_t K1, uint64_t K2) {
    EF F = M::make(K1, "f"), S = M::make(K2, "g");
    L X = Lat<L>::any("x");
    if (llvm::isa<psr::AllTop<L>>(F))
      pv::assume(Lat<L>::geq(S.computeTarget(X), S.computeTarget(top())));
    EF H = F.composeWith(S);
    pv::ensures(H.isValid(), "composition yields a function");
    L Want = S.computeTarget(F.computeTarget(X)), Got = H.computeTarget(X);
    pv::ensures(Lat<L>::geq(Got, Want),
                "composition over-approximates 'first, then second'");
    if (!isTopOrBot(F) && exactHook<M>(F, S, 0))
      pv::ensures(Lat<L>::eq(Got, Want),
                  "composition equals 'first, then second'");
    if (H.isConstant()) {
      L Y = Lat<L>::any("y");
      pv::ensures(Lat<L>::eq(H.computeTarget(Y), Got),
                  "a composition that reports to be constant is constant");
    }
  }
  static void join(uint64_t K1, uint64_t K2) {
    EF F = M::make(K1, "f"), G = M::make(K2, "g");
    L X = Lat<L>::any("x");
    pv::assume(joinInput<M>(X, 0));
    EF J = F.joinWith(G);
    pv::ensures(J.isValid(), "join yields a function");
    L Got = J.computeTarget(X);
    pv::ensures(Lat<L>::geq(Got, F.computeTarget(X)),
                "join is above the first operand at every input");
    pv::ensures(Lat<L>::geq(Got, G.computeTarget(X)),
                "join is above the second operand at every input");
    if (llvm::isa<psr::AllTop<L>>(F))
      pv::ensures(Lat<L>::eq(Got, G.computeTarget(X)),
                  "all-top is neutral for join (left)");
    if (J.isConstant()) {
      L Y = Lat<L>::any("y");
      pv::assume(joinInput<M>(Y, 0));
      pv::ensures(Lat<L>::eq(J.computeTarget(Y), Got),
                  "a join that reports to be constant is constant");
    }
  }
  static void equality(uint64_t K1, uint64_t K2) {
    EF F = M::make(K1, "f"), G = M::make(K2, "g");
    bool E = F == G;
    pv::ensures(E == (G == F), "equality is symmetric");
    pv::ensures(E != (F != G), "inequality is the negation of equality");
    L X = Lat<L>::any("x");
    if (E) {
      pv::cover("two equal functions");
      pv::ensures(Lat<L>::eq(F.computeTarget(X), G.computeTarget(X)),
                  "equal edge functions compute equal values");
      pv::ensures(F.isConstant() == G.isConstant(),
                  "equal edge functions agree on being constant");
    }
    if (F.isConstant()) {
      L Y = Lat<L>::any("y");
      pv::ensures(Lat<L>::eq(F.computeTarget(X), F.computeTarget(Y)),
                  "an edge function that reports to be constant is constant");
    }
  }
  static void idempotent(uint64_t K1) {
    EF F = M::make(K1, "f");
    EF G = F;
    L X = Lat<L>::any("x");
    pv::ensures(F == G, "a copy is equal to the original");
    EF J = F.joinWith(G);
    pv::ensures(Lat<L>::eq(J.computeTarget(X), F.computeTarget(X)),
                "joining a function with itself changes nothing");
  }
  /// (f;g);h and f;(g;h) agree
  static void associative(uint64_t K1, uint64_t K2, uint64_t K3) {
    EF F = M::make(K1, "f"), G = M::make(K2, "g"), H = M::make(K3, "h");
    L X = Lat<L>::any("x");
    EF A = F.composeWith(G).composeWith(H);
    EF B = F.composeWith(G.composeWith(H));
    if (isTopOrBot(F) || isTopOrBot(G))
      return;
    pv::ensures(Lat<L>::eq(A.computeTarget(X), B.computeTarget(X)),
                "composition is associative");
  }
};
} // namespace pv
