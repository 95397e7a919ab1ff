// Contracts: alias sets (lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp) and their
// owner (include/phasar/Pointer/AliasSetOwner.h)
//
// Class invariant I of LLVMAliasSet: every known pointer is mapped to the one
// live set that contains it, every member of a set is known, and the live sets
// are exactly the owned ones.  Every operation is verified from an arbitrary
// state that satisfies I (any partition, any sharing of the boxes that earlier
// merges leave behind) to a state that satisfies I again.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMPointsToUtils.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Pointer/AliasSetOwner.h"

#include "llvm/Analysis/AliasAnalysis.h"

#include <memory_resource>
#include <new>

using namespace psr;
namespace {
/// Counts allocations and frees of every block.
struct Pool : std::pmr::memory_resource {
  static constexpr unsigned Max = 8;
  void *Blk[Max];
  unsigned NBlk = 0, Frees[Max] = {}, Live = 0;
  bool Foreign = false;
  void *do_allocate(size_t N, size_t) override {
    void *P = ::operator new(N);
    if (NBlk < Max)
      Blk[NBlk++] = P;
    ++Live;
    return P;
  }
  void do_deallocate(void *P, size_t, size_t) override {
    bool Known = false;
    for (unsigned I = 0; I < NBlk; ++I)
      if (Blk[I] == P) {
        Known = true;
        ++Frees[I];
      }
    Foreign |= !Known;
    --Live;
    // (kept, such that accesses to a released set are seen as such)
  }
  bool do_is_equal(const memory_resource &O) const noexcept override {
    return this == &O;
  }
  ~Pool() {
    for (unsigned I = 0; I < NBlk; ++I)
      ::operator delete(Blk[I]);
  }
  bool once() const {
    bool R = !Foreign;
    for (unsigned I = 0; I < NBlk; ++I)
      R &= Frees[I] <= 1;
    return R;
  }
};

// ---- the owner, over a set type that records its life
struct Cell {
  static inline int Alive = 0;
  uint32_t Magic = 0x5e7;
  uint32_t Payload = 0;
  Cell() { ++Alive; }
  ~Cell() {
    --Alive;
    Magic = 0;
  }
};
void resetCells() { Cell::Alive = 0; }
#ifdef PV_NATIVE
pv::OnReset RCells(&resetCells);
#endif
} // namespace
/// Any sequence of acquisitions and releases: every set is created once,
/// destroyed and reclaimed once, and boxes stay in place.
PVC_CONTRACT(owner_history) {
  pv_note_bounded_("at most four acquisitions and releases");
  Pool P;
  {
    AliasSetOwner<Cell> O(&P);
    Cell **Box[4];
    Cell *Set[4];
    bool Live[4] = {};
    unsigned N = 0, NLive = 0;
    for (unsigned Step = 0; Step < 4; ++Step) {
      unsigned A = pv::choose(2 + NLive, "operation");
      if (A == 0)
        break;
      if (A == 1) {
        auto B = O.acquire();
        Box[N] = B.value();
        Set[N] = B.get();
        pv::ensures(Set[N]->Magic == 0x5e7, "an acquired set is constructed");
        for (unsigned I = 0; I < N; ++I) {
          pv::ensures(Box[I] != Box[N], "every acquisition has its own box");
          if (Live[I])
            pv::ensures(Set[I] != Set[N], "live sets are distinct");
        }
        Set[N]->Payload = N + 1;
        Live[N++] = true;
        ++NLive;
        continue;
      }
      unsigned K = A - 2;
      for (unsigned I = 0; I < N; ++I)
        if (Live[I] && K-- == 0) {
          O.release(Set[I]);
          Live[I] = false;
          --NLive;
          break;
        }
    }
    pv::ensures(Cell::Alive == int(NLive), "released sets are destroyed once");
    pv::ensures(P.Live == NLive, "released sets are reclaimed once");
    unsigned Seen = 0;
    for (Cell *C : O.getAllAliasSets()) {
      bool Known = false;
      for (unsigned I = 0; I < N; ++I)
        Known |= Live[I] && Set[I] == C;
      pv::ensures(Known, "only live sets are listed");
      ++Seen;
    }
    pv::ensures(Seen == NLive, "every live set is listed once");
    for (unsigned I = 0; I < N; ++I) {
      pv::ensures(*Box[I] == Set[I], "boxes stay in place");
      if (Live[I])
        pv::ensures(Set[I]->Payload == I + 1, "live sets stay intact");
    }
  }
  pv::ensures(Cell::Alive == 0 && P.Live == 0 && P.once(),
              "the owner reclaims the remaining sets exactly once");
}

// ---- LLVMAliasSet
namespace {
using Set = LLVMAliasSet::AliasSetTy;
constexpr unsigned NV = 4;
/// An LLVMAliasSet in an arbitrary valid state over the pointers V[0..NV).
struct State {
  Pool P;
  alignas(LLVMAliasSet) char Buf[sizeof(LLVMAliasSet)];
  LLVMAliasSet *L = reinterpret_cast<LLVMAliasSet *>(Buf);
  const llvm::Value *V[NV];
  bool Known[NV] = {};
  unsigned Cls[NV] = {}; // class, for known pointers
  State() {
    new (&L->AnalyzedFunctions) llvm::DenseSet<const llvm::Function *>();
    new (&L->Owner) AliasSetOwner<Set>(&P);
    new (&L->AliasSets) LLVMAliasSet::AliasSetMap();
  }
  ~State() {
    using M = LLVMAliasSet::AliasSetMap;
    L->AliasSets.~M();
    L->Owner.~AliasSetOwner<Set>();
    using F = llvm::DenseSet<const llvm::Function *>;
    L->AnalyzedFunctions.~F();
  }
  void arbitrary(unsigned N, bool AllKnown, bool Boxes = true) {
    unsigned NC = 0;
    for (unsigned I = 0; I < N; ++I) {
      unsigned C = pv::choose(NC + 1 + !AllKnown, "class");
      if (C == NC + 1)
        continue; // unknown so far
      Known[I] = true;
      Cls[I] = C;
      if (C == NC) {
        ++NC;
        auto B = L->Owner.acquire();
        B->insert(V[I]);
        L->AliasSets.try_emplace(V[I], B);
        continue;
      }
      unsigned First = 0;
      while (!(Known[First] && Cls[First] == C))
        ++First;
      auto B = L->AliasSets.find(V[First])->second;
      B->insert(V[I]);
      // the pointer may have come from a set that has been merged
      if (Boxes && pv::flip("own box"))
        L->AliasSets.try_emplace(
            V[I], BoxedPtr<Set>(&L->Owner.AllPTS.emplace_back(B.get())));
      else
        L->AliasSets.try_emplace(V[I], B);
    }
  }
  bool same(unsigned I, unsigned J) const {
    return Known[I] && Known[J] && Cls[I] == Cls[J];
  }
  void unite(unsigned I, unsigned J) {
    unsigned C = Cls[J];
    for (unsigned K = 0; K < NV; ++K)
      if (Known[K] && Cls[K] == C)
        Cls[K] = Cls[I];
  }
  void learn(unsigned I) {
    if (!Known[I]) {
      Known[I] = true;
      Cls[I] = 100 + I;
    }
  }
  bool owned(Set *S) {
    for (Set *O : L->Owner.getAllAliasSets())
      if (O == S)
        return true;
    return false;
  }
  /// I holds and the sets are exactly the classes.
  void check() {
    unsigned NKnown = 0, NC = 0;
    for (unsigned I = 0; I < NV; ++I) {
      auto It = L->AliasSets.find(V[I]);
      if (!Known[I]) {
        pv::ensures(It == L->AliasSets.end(), "unrelated pointers stay unknown");
        continue;
      }
      ++NKnown;
      bool New = true;
      for (unsigned J = 0; J < I; ++J)
        New &= !same(I, J);
      NC += New;
      if (It == L->AliasSets.end() || !It->second) {
        pv::ensures(false, "every known pointer has a set");
        return;
      }
      Set *S = It->second.get();
      if (!owned(S)) {
        pv::ensures(false, "no pointer is mapped to a reclaimed set");
        return;
      }
      unsigned Size = 0;
      for (unsigned J = 0; J < NV; ++J) {
        Size += same(I, J);
        pv::ensures((S->count(V[J]) != 0) == same(I, J),
                    "a set holds exactly the pointers that alias");
      }
      pv::ensures(S->size() == Size,
                  "a set holds exactly the pointers that alias");
      for (unsigned J = 0; J < I; ++J)
        if (same(I, J))
          pv::ensures(L->AliasSets.find(V[J])->second.get() == S,
                      "every member of a set is mapped to that set");
    }
    pv::ensures(L->AliasSets.size() == NKnown, "unrelated pointers stay unknown");
    unsigned NOwned = 0;
    for (Set *S : L->Owner.getAllAliasSets()) {
      (void)S;
      ++NOwned;
    }
    pv::ensures(NOwned == NC && P.Live == NC,
                "merged-away sets are reclaimed, others are not");
    pv::ensures(P.once(), "sets are reclaimed once");
  }
};
struct Ptrs {
  pv::ir::World W;
  llvm::PointerType *Ty, *Ty2;
  const llvm::Value *A[NV];
  Ptrs() {
    Ty = W.ptrTy(W.intTy(8));
    Ty2 = W.ptrTy(W.intTy(16));
    for (auto &V : A)
      V = W.arg(Ty);
  }
};
void setup(State &S, const Ptrs &P) {
  for (unsigned I = 0; I < NV; ++I)
    S.V[I] = P.A[I];
}
} // namespace
/// introduceAlias puts both pointers and everything that aliases either of
/// them into one set.
PVC_CONTRACT(introduce) {
  pv_note_bounded_("four pointers");
  Ptrs P;
  State S;
  setup(S, P);
  S.arbitrary(NV, false);
  unsigned I = pv::choose(NV, "first"), J = pv::choose(NV, "second");
  S.L->introduceAlias(S.V[I], S.V[J]);
  S.learn(I);
  S.learn(J);
  S.unite(I, J);
  S.check();
}
/// Two in a row (boxes that are left behind by the first one).
PVC_CONTRACT(introduce_twice) {
  pv_note_bounded_("four pointers");
  Ptrs P;
  State S;
  setup(S, P);
  S.arbitrary(NV, true, false);
  unsigned I = pv::choose(2, "first"), J = I + 1 + pv::choose(2, "second");
  S.L->introduceAlias(S.V[I], S.V[J]);
  S.unite(I, J);
  unsigned K = pv::choose(NV, "third"), M = pv::choose(NV, "fourth");
  S.L->introduceAlias(S.V[K], S.V[M]);
  S.unite(K, M);
  S.check();
}
/// Not for null and non-pointers.
PVC_CONTRACT(introduce_uninteresting) {
  Ptrs P;
  State S;
  setup(S, P);
  S.arbitrary(2, false, false);
  const llvm::Value *X = pv::flip("null")
                             ? P.W.nullPtr(P.Ty)
                             : (const llvm::Value *)P.W.arg(P.W.intTy(64));
  bool First = pv::flip("first");
  S.L->introduceAlias(First ? X : S.V[0], First ? S.V[0] : X);
  S.check();
  pv::ensures(S.L->alias(X, S.V[0]) == AliasResult::NoAlias &&
                  S.L->alias(S.V[0], X) == AliasResult::NoAlias,
              "null and non-pointers alias nothing");
  pv::ensures(S.L->getAliasSet(X)->empty(), "null and non-pointers alias "
                                            "nothing");
}
/// alias and getAliasSet report exactly the partition.
PVC_CONTRACT(query) {
  pv_note_bounded_("four pointers");
  Ptrs P;
  State S;
  setup(S, P);
  S.arbitrary(NV, false);
  unsigned I = pv::choose(NV, "first"), J = pv::choose(NV, "second");
  bool May = S.L->alias(S.V[I], S.V[J]) != AliasResult::NoAlias;
  S.learn(I);
  S.learn(J);
  pv::ensures(May == S.same(I, J), "pointers alias iff they are in one set");
  auto Got = S.L->getAliasSet(S.V[I]);
  for (unsigned K = 0; K < NV; ++K)
    pv::ensures((Got->count(S.V[K]) != 0) == S.same(I, K),
                "the alias set of a pointer");
  S.check();
}
/// A set handed out earlier follows later merges.
PVC_CONTRACT(handed_out) {
  pv_note_bounded_("four pointers");
  Ptrs P;
  State S;
  setup(S, P);
  S.arbitrary(NV, true);
  auto Got = S.L->getAliasSet(S.V[0]);
  unsigned I = pv::choose(NV, "first"), J = pv::choose(NV, "second");
  S.L->introduceAlias(S.V[I], S.V[J]);
  S.unite(I, J);
  S.check();
  if (!S.owned(const_cast<Set *>(Got.get()))) {
    pv::ensures(false, "an alias set handed out earlier stays valid");
    return;
  }
  for (unsigned K = 0; K < NV; ++K)
    pv::ensures((Got->count(S.V[K]) != 0) == S.same(0, K),
                "an alias set handed out earlier follows merges");
}
/// mergeWith: what aliases in either aliases in the result.
PVC_CONTRACT(merge_with) {
  pv_note_bounded_("three pointers");
  Ptrs P;
  State S, O;
  setup(S, P);
  setup(O, P);
  S.arbitrary(3, false, false);
  O.arbitrary(3, false, false);
  auto *F = reinterpret_cast<llvm::Function *>(P.W.raw(256));
  O.L->AnalyzedFunctions.insert(F);
  S.L->mergeWith(*O.L);
  pv::ensures(S.L->AnalyzedFunctions.count(F), "functions analyzed by either");
  for (unsigned I = 0; I < NV; ++I)
    if (O.Known[I])
      S.learn(I);
  for (unsigned I = 0; I < NV; ++I)
    for (unsigned J = 0; J < NV; ++J)
      if (O.same(I, J))
        S.unite(I, J);
  S.check();
  O.check();
}

// ---- the construction from LLVM's alias information
namespace {
bool May[NV][NV];
const llvm::Value *AAV[NV];
void resetMay() { std::memset(May, 0, sizeof(May)); }
#ifdef PV_NATIVE
pv::OnReset RMay(&resetMay);
#endif
} // namespace
#ifndef PV_NATIVE
// llvm::AAResults::alias answers arbitrarily (but symmetrically)
llvm::AliasResult llvm::AAResults::alias(const llvm::MemoryLocation &A,
                                         const llvm::MemoryLocation &B) {
  for (unsigned I = 0; I < NV; ++I)
    for (unsigned J = 0; J < NV; ++J)
      if (AAV[I] == A.Ptr && AAV[J] == B.Ptr)
        return May[I][J] ? llvm::AliasResult::MayAlias
                         : llvm::AliasResult::NoAlias;
  return llvm::AliasResult::NoAlias;
}
/// Adding a pointer unites it with every representative it may alias.
PVC_CONTRACT(add_pointer) {
  pv_note_bounded_("at most three representatives");
  Ptrs P;
  // opaque pointers of two types (address spaces)
  auto *Op1 = P.W.rawType(llvm::Type::PointerTyID, 0);
  auto *Op2 = P.W.rawType(llvm::Type::PointerTyID, 1);
  bool T1[NV];
  for (unsigned I = 0; I < NV; ++I) {
    T1[I] = pv::flip("type");
    P.A[I] = P.W.arg(reinterpret_cast<llvm::Type *>(T1[I] ? Op1 : Op2));
  }
  State S;
  setup(S, P);
  unsigned NR = pv::choose(4, "representatives");
  S.arbitrary(NR, true, false);
  unsigned X = 3;
  if (NR && pv::flip("known before")) { // e.g. through another function
    auto B = S.L->AliasSets.find(S.V[0])->second;
    S.L->AliasSets.try_emplace(S.V[X], B);
    B->insert(S.V[X]);
    S.Known[X] = true;
    S.Cls[X] = S.Cls[0];
  }
  std::vector<const llvm::Value *> Reps;
  for (unsigned I = 0; I < NR; ++I) {
    Reps.push_back(S.V[I]);
    AAV[I] = S.V[I];
    May[X][I] = May[I][X] = pv::flip("may alias");
  }
  AAV[X] = S.V[X];
  auto *AA = reinterpret_cast<llvm::AAResults *>(P.W.raw(64));
  auto *DL = reinterpret_cast<llvm::DataLayout *>(P.W.raw(512));
  S.L->addPointer(*AA, *DL, S.V[X], Reps);
  S.learn(X);
  for (unsigned I = 0; I < NR; ++I)
    if (May[X][I])
      S.unite(I, X);
  S.check();
  // every set keeps a representative of each type it had one of
  for (unsigned I = 0; I <= NR; ++I) {
    unsigned V = I == NR ? X : I;
    bool Found = false;
    for (auto *R : Reps)
      for (unsigned K = 0; K < NV; ++K)
        Found |= R == S.V[K] && S.same(K, V) && T1[K] == T1[V];
    pv::ensures(Found, "every set has a representative of each pointer type");
  }
}
#endif

/// The allocation sites a pointer may point to.
namespace {
llvm::Function *HeapFn;
bool fakeHeap(const llvm::Function *F) noexcept { return F == HeapFn; }
} // namespace
PVC_CONTRACT(allocation_sites) {
  pv_note_bounded_("four pointers");
  Ptrs P;
  auto &W = P.W;
  pv::replace(static_cast<bool (*)(const llvm::Function *) noexcept>(
                  &isHeapAllocatingFunction),
              &fakeHeap);
  llvm::Type *Ps[] = {P.Ty};
  auto *FT = W.fnTy(P.Ty, Ps, 1);
  llvm::Function *Fn[2] = {W.func(FT, 0, true), W.func(FT, 0, true)};
  llvm::BasicBlock *BB[2] = {W.block(Fn[0]), W.block(Fn[1])};
  HeapFn = W.func(FT, 0, true);
  auto *Plain = W.func(FT, 0, true);
  // the pointer: of function 0, or global
  bool Glob = false, Site[NV] = {}, Formal[NV] = {}, Own[NV] = {};
  switch (pv::choose(3, "pointer")) {
  case 0:
    P.A[0] = Fn[0]->getArg(0);
    Formal[0] = Own[0] = true;
    break;
  case 1:
    P.A[0] = W.append(BB[0], W.inst(llvm::Instruction::Load, P.Ty, {W.arg(P.Ty)}));
    break;
  default:
    P.A[0] = W.gvar(P.Ty, nullptr);
    Glob = true;
  }
  // another pointer of any kind, in either function
  for (unsigned I = 1; I < 3; ++I) {
    unsigned K = pv::choose(2, "function");
    Own[I] = K == 0;
    llvm::Value *Arg[] = {W.arg(P.Ty)};
    switch (pv::choose(I == 1 ? 5 : 2, "kind")) {
    case 0:
      P.A[I] = W.append(BB[K], W.alloca_(W.intTy(8), W.constInt(W.intTy(32), 1)));
      Site[I] = true;
      break;
    case 1:
      P.A[I] = W.append(BB[K], W.call(FT, HeapFn, Arg, 1));
      Site[I] = true;
      break;
    case 2:
      P.A[I] = W.append(BB[K], W.call(FT, Plain, Arg, 1));
      break;
    case 3: // indirect
      P.A[I] = W.append(BB[K], W.call(FT, W.arg(P.Ty), Arg, 1));
      break;
    default:
      if (P.A[0] == Fn[0]->getArg(0))
        K = 1, Own[I] = false;
      P.A[I] = Fn[K]->getArg(0);
      Formal[I] = true;
    }
  }
  P.A[3] = W.arg(P.Ty, 0, Plain);
  State S;
  setup(S, P);
  S.arbitrary(NV, true, false);
  for (auto *F : {Fn[0], Fn[1], HeapFn, Plain})
    S.L->AnalyzedFunctions.insert(F);
  bool Intra = pv::flip("intra-procedural");
  auto Got = S.L->getReachableAllocationSites(S.V[0], Intra);
  unsigned Num = 0;
  for (unsigned I = 0; I < NV; ++I) {
    bool Want = S.same(0, I) &&
                (Intra ? (Site[I] && (Own[I] || Glob)) ||
                             (Formal[I] && Own[I] && !Glob)
                       : Site[I]);
    Num += Want;
    pv::ensures((Got->count(S.V[I]) != 0) == Want &&
                    S.L->isInReachableAllocationSites(S.V[0], S.V[I], Intra) ==
                        Want,
                "the allocation sites of a pointer are the allocas and heap "
                "allocations in its set; within a function those of that "
                "function, and its formals");
  }
  pv::ensures(Got->size() == Num, "there are no other allocation sites");
  S.check();
}
