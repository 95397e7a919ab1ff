// Contracts: the value lattices that the library ships are join-semilattices
// (LatticeDomain, BinaryDomain, SecureHeapValue, CSTDFILEIOState, the
// extended-taint EdgeDomain, and the JoinLattice default implementation).
#include "pv/lattices.h"
#include "pv/llvmir.h"

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Utils/BasicBlockOrdering.h"

using namespace psr;

namespace {
// A user-defined carrier: two fields, compared by both.
struct Pair {
  uint32_t A, B;
  friend bool operator==(const Pair &X, const Pair &Y) {
    return pv_and_(X.A == Y.A, X.B == Y.B);
  }
  friend bool operator<(const Pair &X, const Pair &Y) {
    return pv_or_(X.A < Y.A, pv_and_(X.A == Y.A, X.B < Y.B));
  }
};
// A user-defined carrier that is heap-allocated (non-trivial copy).
struct Boxed {
  uint64_t *P;
  Boxed(uint64_t V) : P(new uint64_t(V)) {}
  Boxed(const Boxed &O) : P(new uint64_t(*O.P)) {}
  Boxed &operator=(const Boxed &O) {
    *P = *O.P;
    return *this;
  }
  ~Boxed() { delete P; }
  friend bool operator==(const Boxed &X, const Boxed &Y) {
    return *X.P == *Y.P;
  }
  friend bool operator<(const Boxed &X, const Boxed &Y) { return *X.P < *Y.P; }
};
template <typename L> struct Dom;
template <> struct Dom<int64_t> {
  static int64_t any(const char *N) { return pv::any<int64_t>(N); }
  static bool same(int64_t A, int64_t B) { return A == B; }
  static bool less(int64_t A, int64_t B) { return A < B; }
};
template <> struct Dom<uint8_t> {
  static uint8_t any(const char *N) { return pv::any<uint8_t>(N); }
  static bool same(uint8_t A, uint8_t B) { return A == B; }
  static bool less(uint8_t A, uint8_t B) { return A < B; }
};
template <> struct Dom<Pair> {
  static Pair any(const char *N) {
    return {pv::any<uint32_t>(N), pv::any<uint32_t>(N)};
  }
  static bool same(const Pair &A, const Pair &B) {
    return pv_and_(A.A == B.A, A.B == B.B);
  }
  static bool less(const Pair &X, const Pair &Y) {
    return pv_or_(X.A < Y.A, pv_and_(X.A == Y.A, X.B < Y.B));
  }
};
template <> struct Dom<Boxed> {
  static Boxed any(const char *N) { return Boxed(pv::any<uint64_t>(N)); }
  static bool same(const Boxed &A, const Boxed &B) { return *A.P == *B.P; }
  static bool less(const Boxed &A, const Boxed &B) { return *A.P < *B.P; }
};

/// Arbitrary element / structural equality of a lattice, independent of the
/// code under contract.
template <typename L> struct El;
template <typename L> struct El<LatticeDomain<L>> {
  using T = LatticeDomain<L>;
  static T any(const char *N) {
    switch (pv::choose(3, N)) {
    case 0:
      return Top{};
    case 1:
      return Bottom{};
    default:
      return Dom<L>::any(N);
    }
  }
  static bool same(const T &A, const T &B) {
    if (A.index() != B.index())
      return false;
    return A.index() != 1 || Dom<L>::same(std::get<1>(A), std::get<1>(B));
  }
  static bool isTop(const T &A) { return A.index() == 0; }
  static bool isBot(const T &A) { return A.index() == 2; }
};
template <typename E, E... Vs> struct EnumEl {
  static E any(const char *N) {
    constexpr E All[] = {Vs...};
    return All[pv::choose(sizeof...(Vs), N)];
  }
  static bool same(E A, E B) { return A == B; }
};
template <>
struct El<BinaryDomain>
    : EnumEl<BinaryDomain, BinaryDomain::TOP, BinaryDomain::BOTTOM> {
  static bool isTop(BinaryDomain A) { return A == BinaryDomain::TOP; }
  static bool isBot(BinaryDomain A) { return A == BinaryDomain::BOTTOM; }
};
template <>
struct El<SecureHeapValue>
    : EnumEl<SecureHeapValue, SecureHeapValue::TOP, SecureHeapValue::BOT,
             SecureHeapValue::INITIALIZED> {
  static bool isTop(SecureHeapValue A) { return A == SecureHeapValue::TOP; }
  static bool isBot(SecureHeapValue A) { return A == SecureHeapValue::BOT; }
};
template <>
struct El<CSTDFILEIOState>
    : EnumEl<CSTDFILEIOState, CSTDFILEIOState::TOP, CSTDFILEIOState::UNINIT,
             CSTDFILEIOState::OPENED, CSTDFILEIOState::CLOSED,
             CSTDFILEIOState::ERROR, CSTDFILEIOState::BOT> {
  static bool isTop(CSTDFILEIOState A) { return A == CSTDFILEIOState::TOP; }
  static bool isBot(CSTDFILEIOState A) { return A == CSTDFILEIOState::BOT; }
};

// ---- the laws --------------------------------------------------------------
template <typename T, typename J> void laws(J Join, const T &Tp, const T &Bt) {
  using E = El<T>;
  T A = E::any("a"), B = E::any("b"), C = E::any("c");
  T AB = Join(A, B);
  pv::ensures(E::same(AB, Join(B, A)), "join is commutative");
  pv::ensures(E::same(Join(AB, C), Join(A, Join(B, C))),
              "join is associative");
  pv::ensures(E::same(Join(A, A), A), "join is idempotent");
  pv::ensures(E::same(Join(A, AB), AB), "join is an upper bound of its operands");
  pv::ensures(E::same(Join(Tp, A), A) && E::same(Join(A, Tp), A),
              "top is neutral");
  pv::ensures(E::same(Join(Bt, A), Bt) && E::same(Join(A, Bt), Bt),
              "bottom absorbs");
  pv::ensures(E::isTop(Tp) && E::isBot(Bt), "top and bottom are themselves");
}
template <typename T> void traitLaws() {
  using J = JoinLatticeTraits<T>;
  static_assert(HasJoinLatticeTraits<T>);
  laws<T>([](const T &A, const T &B) -> T { return J::join(A, B); },
          T(J::top()), T(J::bottom()));
}
struct AnyDomain0 {};
template <typename T> struct DomainOf {
  using l_t = T;
};
template <typename T> void defaultLatticeLaws() {
  struct Lattice : JoinLattice<DomainOf<T>> {
  } Lt;
  JoinLattice<DomainOf<T>> &L = Lt;
  laws<T>([&L](const T &A, const T &B) -> T { return L.join(A, B); },
          L.topElement(), L.bottomElement());
}

template <typename L> void operators() {
  using T = LatticeDomain<L>;
  using E = El<T>;
  T A = E::any("a"), B = E::any("b"), C = E::any("c");
  bool Same = E::same(A, B);
  pv::ensures((A == B) == Same && (A != B) == !Same,
              "equality compares the represented values");
  pv::ensures((A == Top{}) == E::isTop(A) && (Top{} == A) == E::isTop(A) &&
                  (A != Top{}) == !E::isTop(A) && (Top{} != A) == !E::isTop(A),
              "comparison with Top");
  pv::ensures((A == Bottom{}) == E::isBot(A) &&
                  (Bottom{} == A) == E::isBot(A) &&
                  (A != Bottom{}) == !E::isBot(A) &&
                  (Bottom{} != A) == !E::isBot(A),
              "comparison with Bottom");
  L V = Dom<L>::any("v");
  bool Is = A.index() == 1 && Dom<L>::same(std::get<1>(A), V);
  pv::ensures((A == V) == Is && (V == A) == Is && (A != V) == !Is &&
                  (V != A) == !Is,
              "comparison with a raw value");
  pv::ensures(A.isTop() == E::isTop(A) && A.isBottom() == E::isBot(A) &&
                  (A.getValueOrNull() != nullptr) == (A.index() == 1),
              "queries agree with the stored alternative");
  if (A.index() == 1)
    pv::ensures(Dom<L>::same(A.assertGetValue(), std::get<1>(A)) &&
                    Dom<L>::same(*A.getValueOrNull(), std::get<1>(A)),
                "the value is the stored one");
  bool Less = A.index() != B.index() ? A.index() < B.index()
                                     : A.index() == 1 &&
                                           Dom<L>::less(std::get<1>(A),
                                                        std::get<1>(B));
  pv::ensures((A < B) == Less, "Top < values in their order < Bottom");
}
template <typename L> void unwrapping() {
  using T = LatticeDomain<L>;
  L V = Dom<L>::any("v");
  T A = V;
  pv::ensures(Dom<L>::same(L(NonTopBotValue<T>::unwrap(A)), V),
              "a stored non-top, non-bottom value is unwrapped unchanged");
}
} // namespace

PVC_CONTRACT(laws_flat) { traitLaws<LatticeDomain<int64_t>>(); }
PVC_CONTRACT(laws_flat_small) { traitLaws<LatticeDomain<uint8_t>>(); }
PVC_CONTRACT(laws_flat_struct) { traitLaws<LatticeDomain<Pair>>(); }
PVC_CONTRACT(laws_flat_owning) { traitLaws<LatticeDomain<Boxed>>(); }
PVC_CONTRACT(laws_binary) { traitLaws<BinaryDomain>(); }
PVC_CONTRACT(laws_secure_heap) { traitLaws<SecureHeapValue>(); }
PVC_CONTRACT(laws_file_io) { traitLaws<CSTDFILEIOState>(); }
PVC_CONTRACT(problem_laws_flat) { defaultLatticeLaws<LatticeDomain<int64_t>>(); }
PVC_CONTRACT(problem_laws_owning) { defaultLatticeLaws<LatticeDomain<Boxed>>(); }
PVC_CONTRACT(problem_laws_binary) { defaultLatticeLaws<BinaryDomain>(); }
PVC_CONTRACT(problem_laws_secure_heap) { defaultLatticeLaws<SecureHeapValue>(); }
PVC_CONTRACT(problem_laws_file_io) { defaultLatticeLaws<CSTDFILEIOState>(); }
PVC_CONTRACT(operators_flat) { operators<int64_t>(); }
PVC_CONTRACT(operators_flat_struct) { operators<Pair>(); }
PVC_CONTRACT(operators_flat_owning) { operators<Boxed>(); }
PVC_CONTRACT(unwrapping_flat) { unwrapping<int64_t>(); }
PVC_CONTRACT(unwrapping_struct) { unwrapping<Pair>(); }

// ---- the extended-taint edge values ---------------------------------------
namespace {
using XTaint::EdgeDomain;
// Two functions; the first has four blocks, each {front, second, br}.  The
// branches of the first NArb blocks are arbitrary (at most two successors),
// the others are exits.
struct Cfg {
  static constexpr int N = 4;
  pv::ir::World W;
  llvm::Function *F[2];
  llvm::BasicBlock *B[N + 1];
  llvm::Instruction *I[N + 1][2];
  int NSucc[N + 1] = {};
  int Succ[N + 1][2] = {};
  explicit Cfg(int NArb, bool Chain = false) {
    auto *I32 = W.intTy(32);
    auto *FT = W.fnTy(W.voidTy(), nullptr, 0);
    auto *LabelTy = W.voidTy();
    auto *Cond = W.constInt(W.intTy(1), 1);
    F[0] = W.func(FT);
    F[1] = W.func(FT);
    auto *One = W.constInt(I32, 1);
    for (int K = 0; K <= N; ++K) {
      B[K] = W.block(F[K == N]);
      for (auto &X : I[K])
        X = W.append(B[K], W.alloca_(I32, One));
    }
    for (int K = 0; K <= N; ++K) {
      if (K < NArb) {
        NSucc[K] = pv::choose(3, "number of successors");
        for (int J = 0; J < NSucc[K]; ++J)
          Succ[K][J] = pv::choose(N, "successor");
      }
      if (Chain && K != 2 && K < N) { // 0 -> 1 -> 2 <- 3
        NSucc[K] = 1;
        Succ[K][0] = K == 3 ? 2 : K + 1;
      }
      llvm::Instruction *T;
      if (NSucc[K] == 0)
        T = W.inst(llvm::Instruction::Ret, LabelTy, {});
      else if (NSucc[K] == 1)
        T = W.inst(llvm::Instruction::Br, LabelTy, {B[Succ[K][0]]});
      else
        T = W.inst(llvm::Instruction::Br, LabelTy,
                   {Cond, B[Succ[K][1]], B[Succ[K][0]]});
      W.append(B[K], T);
    }
    if (NArb)
      pv_note_bounded_("sanitizers in blocks with at most two successors");
  }
  bool leadsTo(int K, const llvm::Instruction *S) const {
    for (int J = 0; J < NSucc[K]; ++J)
      if (I[Succ[K][J]][0] == S)
        return true;
    return false;
  }
  /// Number of common successor blocks; C is one of them.
  int common(int K, int L, int &C) const {
    int R = 0;
    bool Seen[N] = {};
    for (int J = 0; J < NSucc[L]; ++J)
      for (int M = 0; M < NSucc[K]; ++M)
        if (Succ[L][J] == Succ[K][M] && !Seen[Succ[L][J]]) {
          Seen[C = Succ[L][J]] = true;
          ++R;
        }
    return R;
  }
};
EdgeDomain anyKind(const char *N) {
  switch (pv::choose(4, N)) {
  case 0:
    return Top{};
  case 1:
    return Bottom{};
  case 2:
    return XTaint::Sanitized{};
  default:
    return nullptr;
  }
}
enum : unsigned { RTop, RSani, RWith, RNot, RBot };
unsigned rank(const EdgeDomain &D) {
  return D.isTop()            ? RTop
         : D.isSanitized()    ? RSani
         : D.isBottom()       ? RBot
         : D.getSanitizer()   ? RWith
                              : RNot;
}
bool fakeBefore(void *, const llvm::Instruction *A,
                const llvm::Instruction *B) {
  return pv_concrete_(pv_uf2("before", reinterpret_cast<uint64_t>(A),
                             reinterpret_cast<uint64_t>(B)) &
                      1);
}
} // namespace
// At most one of the operands names a sanitizing instruction.
PVC_CONTRACT(taint_laws_one_sanitizer) {
  pv::ir::World W;
  auto *S = W.alloca_(W.intTy(32), W.constInt(W.intTy(32), 1));
  EdgeDomain V[3] = {anyKind("a"), anyKind("b"), anyKind("c")};
  for (auto &X : V)
    if (X.isNotSanitized() && pv::flip("has the sanitizer"))
      X = S;
  auto J = [](const EdgeDomain &A, const EdgeDomain &B) {
    return JoinLatticeTraits<EdgeDomain>::join(A, B);
  };
  EdgeDomain A = V[0], B = V[1], C = V[2], AB = J(A, B);
  pv::ensures(AB == J(B, A), "join is commutative");
  pv::ensures(J(AB, C) == J(A, J(B, C)), "join is associative");
  pv::ensures(J(A, A) == A, "join is idempotent");
  pv::ensures(AB == (rank(A) >= rank(B) ? A : B),
              "no information < sanitized < sanitized at < unsanitized < bottom");
  EdgeDomain Tp = JoinLatticeTraits<EdgeDomain>::top();
  EdgeDomain Bt = JoinLatticeTraits<EdgeDomain>::bottom();
  pv::ensures(J(Tp, A) == A && J(A, Tp) == A, "top is neutral");
  pv::ensures(J(Bt, A) == Bt && J(A, Bt) == Bt, "bottom absorbs");
  pv::ensures(Tp.isTop() && !Tp.isBottom() && Bt.isBottom() && !Bt.isTop(),
              "top and bottom are themselves");
}
PVC_CONTRACT(taint_queries) {
  pv::ir::World W;
  auto *S = W.alloca_(W.intTy(32), W.constInt(W.intTy(32), 1));
  auto *S2 = W.alloca_(W.intTy(32), W.constInt(W.intTy(32), 1));
  EdgeDomain V[2] = {anyKind("a"), anyKind("b")};
  int Who[2] = {0, 0};
  for (int K = 0; K < 2; ++K)
    if (V[K].isNotSanitized()) {
      Who[K] = pv::choose(3, "sanitizer");
      if (Who[K])
        V[K] = Who[K] == 1 ? S : S2;
    }
  EdgeDomain A = V[0], B = V[1];
  bool Same = rank(A) == rank(B) && Who[0] == Who[1];
  pv::ensures((A == B) == Same && (A != B) == !Same,
              "equality compares the represented values");
  pv::ensures(!(A < B && B < A) && (A < B || B < A || Same) && !(A < A),
              "a strict total order");
  pv::ensures(A.isBottom() + A.isTop() + A.isSanitized() + A.isNotSanitized() +
                      A.hasSanitizer() ==
                  1,
              "exactly one kind applies");
  pv::ensures(A.hasSanitizer() == (Who[0] != 0) &&
                  A.getSanitizer() == (Who[0] == 0   ? nullptr
                                       : Who[0] == 1 ? S
                                                     : S2),
              "the sanitizer is the stored one");
  pv::ensures(A.mayBeSanitized() == (A.isSanitized() || A.hasSanitizer()),
              "mayBeSanitized");
  pv::ensures(EdgeDomain(nullptr).isNotSanitized() &&
                  EdgeDomain(XTaint::Sanitized{}).isSanitized() &&
                  EdgeDomain().isBottom(),
              "constructors");
}
// Two different sanitizers.
PVC_CONTRACT(taint_join_two_sanitizers) {
  Cfg G(2);
  int PA = pv::choose(2, "a: position"), PB = pv::choose(2, "b: position");
  int BB = pv::choose(2, "b: block") ? 1 : 0;
  if (BB == 0)
    pv::assume(PA != PB);
  const auto *SA = G.I[0][PA], *SB = G.I[BB][PB];
  EdgeDomain A = SA, B = SB;
  EdgeDomain J = A.join(B), K = B.join(A);
  pv::ensures(J == K, "join is commutative");
  bool AtoB = G.leadsTo(0, SB), BtoA = G.leadsTo(BB, SA);
  int C = 0;
  int NC = G.common(0, BB, C);
  pv::ensures(rank(J) == RNot || rank(J) == RWith,
              "two sanitizers join to a sanitizer or to unsanitized");
  if (rank(J) == RWith) {
    const auto *S = J.getSanitizer();
    pv::ensures((AtoB && S == SB) || (BtoA && S == SA) ||
                    (NC == 1 && S == G.I[C][0]),
                "the joined sanitizer starts a block after both branches");
  }
  if (AtoB && !BtoA)
    pv::ensures(J == B, "a sanitizer at the merge point is kept");
  if (!AtoB && !BtoA && NC == 1)
    pv::ensures(J == EdgeDomain(G.I[C][0]),
                "the sanitizer moves to the only merge point");
  pv::ensures(A.join(J) == A.join(J) && J.join(J) == J, "join is idempotent");
}
PVC_CONTRACT(taint_join_other_function) {
  Cfg G(0);
  EdgeDomain A = G.I[pv::choose(2, "block")][pv::choose(2, "position")];
  EdgeDomain B = G.I[Cfg::N][pv::choose(2, "position")];
  pv::ensures(A.join(B).isNotSanitized() && B.join(A).isNotSanitized(),
              "sanitizers of different functions cancel each other");
  EdgeDomain C = anyKind("c");
  pv::ensures(A.join(B).join(C) == A.join(B.join(C)) &&
                  A.join(C).join(B) == A.join(C.join(B)),
              "join is associative");
}
// With an ordering of the basic blocks: an arbitrary asymmetric relation.
PVC_CONTRACT(taint_join_ordered) {
  Cfg G(1);
  pv::replace(&BasicBlockOrdering::mustComeBefore, &fakeBefore);
  pv_note_assumption_("the dominance query (BasicBlockOrdering) is an arbitrary "
                      "asymmetric relation");
  alignas(16) char Buf[64] = {};
  auto *BBO = reinterpret_cast<BasicBlockOrdering *>(Buf);
  const auto *SA = G.I[0][pv::choose(2, "position")], *SB = G.I[1][1];
  bool AB = fakeBefore(nullptr, SA, SB), BA = fakeBefore(nullptr, SB, SA);
  pv::assume(!(AB && BA));
  EdgeDomain A = SA, B = SB;
  EdgeDomain J = A.join(B, BBO);
  pv::ensures(J == B.join(A, BBO), "join is commutative");
  if (AB)
    pv::ensures(J == A, "the earlier sanitizer is kept");
  else if (BA)
    pv::ensures(J == B, "the earlier sanitizer is kept");
  else
    pv::ensures(J == A.join(B), "unordered sanitizers join as without ordering");
  pv::ensures(A.join(A, BBO) == A, "join is idempotent");
  EdgeDomain C = anyKind("c");
  pv::ensures(A.join(C, BBO) == A.join(C) && C.join(A, BBO) == C.join(A),
              "the ordering is irrelevant for a single sanitizer");
}
// Three sanitizers of one function: 0 -> 1 -> 2 <- 3, sanitizers in 0, 1 and 3.
PVC_CONTRACT(taint_join_three_sanitizers) {
  Cfg G(0, true);
  EdgeDomain A = G.I[0][1], B = G.I[1][0], C = G.I[3][1];
  pv::ensures(A.join(B).join(C) == A.join(B.join(C)), "join is associative");
}
