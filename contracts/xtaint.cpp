// Contracts: the edge functions of the extended taint analysis
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis)
//
// Sanitizers and loads are arbitrary instructions: the dominance query and the
// parent function of an instruction are uninterpreted.  EdgeDomain::join enters
// through its contract.
#include "pv/efspec.h"
#include "pv/lattices.h"

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/ComposeEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/GenEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/KillIfSanitizedEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.h"
#include "phasar/PhasarLLVM/Utils/BasicBlockOrdering.h"

using namespace psr;
using XTaint::EdgeDomain;
using pv::Lat;

namespace {
static_assert(sizeof(EdgeDomain) == 8);
// An edge value as a number: the tagged pointer itself.
uint64_t raw(const EdgeDomain &D) {
  uint64_t R;
  std::memcpy(&R, static_cast<const void *>(&D), 8);
  return R;
}
EdgeDomain ofRaw(uint64_t R) {
  EdgeDomain D;
  std::memcpy(static_cast<void *>(&D), &R, 8);
  return D;
}
const uint64_t BotR = raw(EdgeDomain(Bottom{})), TopR = raw(EdgeDomain(Top{})),
               SaniR = raw(EdgeDomain(XTaint::Sanitized{})),
               NotR = raw(EdgeDomain(nullptr));
bool validRaw(uint64_t R) {
  // a sanitizer is any non-null, aligned pointer
  return pv_or_(pv_or_(pv_or_(R == BotR, R == TopR), R == SaniR),
                (R & 7) == NotR);
}
enum : unsigned { RTop, RSani, RWith, RNot, RBot };
uint64_t rankRaw(uint64_t R) {
  return pv_ite_(
      R == TopR, RTop,
      pv_ite_(R == BotR, RBot,
              pv_ite_(R == SaniR, RSani, pv_ite_(R == NotR, RNot, RWith))));
}
uint64_t joinRaw(uint64_t A, uint64_t B) {
  uint64_t RA = rankRaw(A), RB = rankRaw(B);
  return pv_ite_(A == B, A,
                 pv_ite_(RA == RB, NotR, pv_ite_(RA > RB, A, B)));
}
// The dominance query and the parent function of an instruction: arbitrary.
bool before(const llvm::Instruction *A, const llvm::Instruction *B) {
  return pv_uf2("before", reinterpret_cast<uint64_t>(A),
                reinterpret_cast<uint64_t>(B)) &
         1;
}
bool fakeBefore(void *, const llvm::Instruction *A,
                const llvm::Instruction *B) {
  return before(A, B);
}
uint64_t parent(const llvm::Instruction *I) {
  return pv_uf1("parent", reinterpret_cast<uint64_t>(I));
}
const llvm::Function *fakeParent(const llvm::Instruction *I) {
  return reinterpret_cast<const llvm::Function *>(parent(I));
}
// The contract of EdgeDomain::join (see lattices_shipped.cpp).
EdgeDomain specJoin(const EdgeDomain *This, const EdgeDomain &Other,
                    BasicBlockOrdering *) {
  return ofRaw(joinRaw(raw(*This), raw(Other)));
}
const llvm::Instruction *anyInst(const char *N) {
  uint64_t P = pv::any<uint64_t>(N);
  pv::assume((P & 7) == 0);
  return reinterpret_cast<const llvm::Instruction *>(P);
}
} // namespace
namespace pv {
template <> struct Lat<EdgeDomain> {
  static EdgeDomain any(const char *N) {
    uint64_t R = pv::any<uint64_t>(N);
    pv::assume(validRaw(R));
    return ofRaw(R);
  }
  /// an arbitrary function, but never Top
  static EdgeDomain apply(uint64_t Fn, const EdgeDomain &X) {
    uint64_t R = pv_uf2("ef", Fn, raw(X));
    pv::assume(pv_and_(validRaw(R), R != TopR));
    return ofRaw(R);
  }
  static bool eq(const EdgeDomain &A, const EdgeDomain &B) {
    return raw(A) == raw(B);
  }
  static bool geq(const EdgeDomain &A, const EdgeDomain &B) {
    return pv_or_(eq(A, B), rankRaw(raw(A)) > rankRaw(raw(B)));
  }
  static EdgeDomain join(const EdgeDomain &A, const EdgeDomain &B) {
    return ofRaw(joinRaw(raw(A), raw(B)));
  }
};
} // namespace pv

namespace {
using EF = EdgeFunction<EdgeDomain>;
enum Kind {
  KId,
  KTop,
  KBot,
  KGen,
  KSanitized,
  KKill,
  KTransfer,
  KCompose,
  KJoin,
  KAny,
  NKinds
};
struct Fixture {
  alignas(16) char BBuf[64] = {};
  BasicBlockOrdering *BBO;
  static Fixture *Cur;
  Fixture() {
    Cur = this;
    BBO = reinterpret_cast<BasicBlockOrdering *>(BBuf);
    pv::replace(&BasicBlockOrdering::mustComeBefore, &fakeBefore);
    pv::replace(static_cast<const llvm::Function *(llvm::Instruction::*)()
                                const>(&llvm::Instruction::getFunction),
                &fakeParent);
    pv::replace(&EdgeDomain::join, &specJoin);
    pv_note_assumption_("the dominance query (BasicBlockOrdering) and the parent "
                        "function of an instruction are arbitrary maps");
    pv_note_assumption_("two different sanitizers merge to unsanitized (the "
                        "merge to a later common sanitizer is C03's)");
  }
};
Fixture *Fixture::Cur;
struct XT {
  /// all-sanitized followed by all-top stays all-sanitized
  static bool exact(const psr::EdgeFunction<EdgeDomain> &F,
                    const psr::EdgeFunction<EdgeDomain> &G) {
    return !(llvm::isa<XTaint::AllSanitized>(F) &&
             llvm::isa<AllTop<EdgeDomain>>(G));
  }
  /// Joins are claimed for every value but "no information": joining a
  /// sanitizing function with all-sanitized keeps the former.
  static bool joinInput(const EdgeDomain &X) { return !X.isTop(); }
  static EF make(uint64_t K, const char *N) {
    switch (K) {
    case KId:
      return EdgeIdentity<EdgeDomain>{};
    case KTop:
      return AllTop<EdgeDomain>{};
    case KBot:
      return AllBottom<EdgeDomain>{};
    case KGen:
      return XTaint::GenEdgeFunction{anyInst(N)};
    case KSanitized:
      return XTaint::AllSanitized{};
    case KKill:
      return XTaint::KillIfSanitizedEdgeFunction{
          {}, Fixture::Cur->BBO, anyInst(N)};
    case KTransfer:
      return XTaint::TransferEdgeFunction{
          {}, Fixture::Cur->BBO, anyInst(N), anyInst(N)};
    case KCompose: // as the analysis builds it
      return XTaint::makeComposeEF(pv::AnyEF<EdgeDomain>{pv::any<uint32_t>(N)},
                                   pv::AnyEF<EdgeDomain>{pv::any<uint32_t>(N)});
    case KJoin:
      return make(KKill + pv::choose(2, N), N)
          .joinWith(EdgeIdentity<EdgeDomain>{});
    default:
      return pv::AnyEF<EdgeDomain>{pv::any<uint32_t>(N)};
    }
  }
};
using S = pv::EFSpec<EdgeDomain, XT>;
} // namespace

// ---- what each function computes ------------------------------------------
PVC_CONTRACT(transfer_value) {
  Fixture W;
  auto *L = anyInst("load"), *T = anyInst("to");
  XTaint::TransferEdgeFunction Fn{{}, W.BBO, L, T};
  EdgeDomain X = Lat<EdgeDomain>::any("x");
  bool StillSanitized =
      X.isSanitized() || (X.hasSanitizer() && (!L || before(X.getSanitizer(), L)));
  EdgeDomain R = Fn.computeTarget(X);
  pv::ensures(R == (StillSanitized ? EdgeDomain(T) : EdgeDomain(nullptr)),
              "a sanitized value is marked with the new sanitizer, any other "
              "value is unsanitized");
}
PVC_CONTRACT(kill_value) {
  Fixture W;
  auto *L = anyInst("load");
  XTaint::KillIfSanitizedEdgeFunction Fn{{}, W.BBO, L};
  EdgeDomain X = Lat<EdgeDomain>::any("x");
  EdgeDomain R = Fn.computeTarget(X);
  pv::ensures(Fn.getLoad() == L, "the load is the given one");
  if (!X.hasSanitizer())
    pv::ensures(R == X, "values without sanitizer are kept");
  else if (!L || (parent(X.getSanitizer()) == parent(L) &&
                  before(X.getSanitizer(), L)))
    pv::ensures(R.isSanitized(), "sanitized when the sanitizer precedes the load");
  else
    pv::ensures(R.isNotSanitized(), "unsanitized when the sanitizer may follow");
}
PVC_CONTRACT(sanitized_and_gen_value) {
  Fixture W;
  EdgeDomain X = Lat<EdgeDomain>::any("x");
  pv::ensures(EF(XTaint::AllSanitized{}).computeTarget(X).isSanitized(),
              "everything is sanitized");
  pv::ensures(EF(XTaint::GenEdgeFunction{nullptr}).computeTarget(X) ==
                  EdgeDomain(nullptr),
              "a generated taint is unsanitized");
  auto *I = anyInst("sanitizer");
  pv::ensures(EF(XTaint::GenEdgeFunction{I}).computeTarget(X) == EdgeDomain(I),
              "a generated taint carries the given sanitizer");
}
PVC_CONTRACT(compose_value) {
  Fixture W;
  EF F = XT::make(pv::choose(KCompose, "k1"), "f");
  EF G = pv::AnyEF<EdgeDomain>{pv::any<uint32_t>("g")};
  EdgeDomain X = Lat<EdgeDomain>::any("x");
  pv::ensures(XTaint::makeComposeEF(F, G).computeTarget(X) ==
                  G.computeTarget(F.computeTarget(X)),
              "first, then second");
}
void mergeSanitized(uint64_t K1) {
  EF F = XT::make(K1, "f");
  EF G = XT::make(pv::choose(NKinds, "k2"), "g");
  EdgeDomain X = Lat<EdgeDomain>::any("x");
  pv::assume(!X.isTop());
  EdgeDomain R = F.joinWith(G).computeTarget(X);
  EdgeDomain A = F.computeTarget(X), B = G.computeTarget(X);
  auto Sanit = [](const EdgeDomain &D) {
    return D.mayBeSanitized() || D.isTop();
  };
  if (R.mayBeSanitized())
    pv::ensures(Sanit(A) && Sanit(B),
                "a merged state is sanitized only if both states are");
}

#define K(NAME, KIND)                                                          \
  PVC_CONTRACT(alg_compose_##NAME) {                                           \
    Fixture W;                                                                 \
    S::compose(KIND, pv::choose(NKinds, "kind2"));                             \
  }                                                                            \
  PVC_CONTRACT(alg_join_##NAME) {                                              \
    Fixture W;                                                                 \
    S::join(KIND, pv::choose(NKinds, "kind2"));                                \
  }                                                                            \
  PVC_CONTRACT(merge_sanitized_##NAME) {                                       \
    Fixture W;                                                                 \
    mergeSanitized(KIND);                                                      \
  }                                                                            \
  PVC_CONTRACT(alg_equality_##NAME) {                                          \
    Fixture W;                                                                 \
    S::equality(KIND, pv::choose(NKinds, "kind2"));                            \
  }
K(generic, pv::choose(KGen, "kind1"))
K(gen, KGen)
K(sanitized, KSanitized)
K(kill, KKill)
K(transfer, KTransfer)
K(composed, KCompose)
K(joined, KJoin)
PVC_CONTRACT(alg_idempotent) {
  Fixture W;
  S::idempotent(pv::choose(KAny, "k"));
}
#define A(NAME, KIND)                                                          \
  PVC_CONTRACT(alg_associative_##NAME) {                                       \
    Fixture W;                                                                 \
    S::associative(KIND, KGen + pv::choose(4, "k2"), KGen + pv::choose(4, "k3")); \
  }
A(gen, KGen)
A(sanitized, KSanitized)
A(kill, KKill)
A(transfer, KTransfer)
