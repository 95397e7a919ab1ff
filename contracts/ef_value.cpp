// Contracts: EdgeFunction<L> as a value type
// (include/phasar/DataFlow/IfdsIde/EdgeFunction.h and the singleton caches).
//
// Invariant of the handle/heap state (pre- and postcondition of every
// operation): every live heap-held function has a reference count equal to the
// number of handles on it.  The handles the contract names plus an arbitrary
// number E of others (the environment) make up that count, so each contract
// speaks about every reachable state, not about one history.
#include "pv/lattices.h"

#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"

#include <new>

using namespace psr;
using pv::Lat;
using pv::PSet;

namespace {
using EF = EdgeFunction<PSet>;
uint32_t Destroyed[4];

template <int Tag> struct Heap {
  using l_t = PSet;
  uint32_t Id = 0;
  uint32_t Obj = 3;
  uint64_t Magic = 0x1234;
  Heap() = default;
  Heap(uint32_t Id, uint32_t Obj) : Id(Id), Obj(Obj) {}
  Heap(const Heap &O) : Id(O.Id), Obj(O.Obj) {}
  // the moved-from original no longer counts as the object
  Heap(Heap &&O) noexcept : Id(O.Id), Obj(std::exchange(O.Obj, 3)) {}
  Heap &operator=(const Heap &) = default;
  ~Heap() {
    pv::ensures(Magic == 0x1234, "a function is never destroyed twice");
    Magic = 0xdead;
    ++Destroyed[Obj & 3];
  }
  PSet computeTarget(PSet X) const {
    pv::ensures(Magic == 0x1234, "a function is never used after destruction");
    return Lat<PSet>::apply(Id, X);
  }
  static EF compose(EdgeFunctionRef<Heap> This, const EF &Snd);
  static EF join(EdgeFunctionRef<Heap> This, const EF &Oth);
  friend bool operator==(const Heap &A, const Heap &B) noexcept {
    return A.Id == B.Id;
  }
};
template <int Tag> struct Soo {
  using l_t = PSet;
  uint32_t Id;
  PSet computeTarget(PSet X) const { return Lat<PSet>::apply(Id, X); }
  static EF compose(EdgeFunctionRef<Soo> This, const EF &) {
    pv::ensures(!This.isCached() && !This.getCacheOrNull(),
                "an inline function is never cached");
    return This;
  }
  static EF join(EdgeFunctionRef<Soo>, const EF &Oth) { return Oth; }
  friend bool operator==(Soo A, Soo B) noexcept { return A.Id == B.Id; }
};
struct Empty {
  using l_t = PSet;
  PSet computeTarget(PSet X) const { return X; }
  static EF compose(EdgeFunctionRef<Empty>, const EF &Snd) { return Snd; }
  static EF join(EdgeFunctionRef<Empty>, const EF &Oth) { return Oth; }
};
/// An arbitrary cache, by its interface contract.
template <typename T> struct AnyCache : EdgeFunctionSingletonCache<T> {
  const void *Known = nullptr;
  const T *KnownEF = nullptr;
  const T *InsertedEF = nullptr;
  const void *InsertedMem = nullptr;
  int Lookups = 0, Inserts = 0, Erases = 0;
  const void *ErasedMem = nullptr;
  uint32_t ErasedId = 0;
  const void *lookup(ByConstRef<T> X) const noexcept override {
    ++const_cast<AnyCache *>(this)->Lookups;
    return KnownEF && *KnownEF == X ? Known : nullptr;
  }
  void insert(const T *X, const void *Mem) override {
    ++Inserts;
    InsertedEF = X;
    InsertedMem = Mem;
    pv::ensures(X != nullptr && Mem != nullptr, "cache entries are not null");
    Known = Mem;
    KnownEF = X;
  }
  void erase(ByConstRef<T> X) noexcept override {
    ++Erases;
    ErasedId = X.Id;
    pv::ensures(X.Magic == 0x1234, "a function is erased from its cache while "
                                   "it is still alive");
    if (KnownEF && *KnownEF == X)
      Known = nullptr, KnownEF = nullptr;
  }
};

struct Seen {
  const void *Ptr;
  bool Cached;
  void *Cache;
  uint32_t Id;
} Last;
template <int Tag>
EF Heap<Tag>::compose(EdgeFunctionRef<Heap> This, const EF &) {
  Last = {This.get(), This.isCached(), This.getCacheOrNull(), This->Id};
  pv::ensures((*This).Id == This.get()->Id, "a reference denotes one function");
  return This;
}
template <int Tag> EF Heap<Tag>::join(EdgeFunctionRef<Heap> This, const EF &O) {
  Last = {This.get(), This.isCached(), This.getCacheOrNull(), This->Id};
  EF R = This;
  return R;
}

enum Kind { Null_, SooA, SooB, HeapA, HeapB, CachedA, EmptyK, NK };
/// One function, how it is held, and how many handles exist on it.
struct Obj {
  Kind K = Null_;
  uint32_t Id = 0, No = 0;
  uint64_t Env = 0;
  int Named = 0;
  const void *Mem = nullptr; // RefCountedBase
  AnyCache<Heap<0>> *Cache = nullptr;
  bool heap() const { return K == HeapA || K == HeapB || K == CachedA; }
};
uint64_t *rc(const void *Mem) {
  return const_cast<uint64_t *>(static_cast<const uint64_t *>(Mem));
}
/// Creates the function of O (first handle); the count is adjusted by settle.
EF make(Obj &O, uint32_t No, AnyCache<Heap<0>> &C, uint64_t MaxKind = NK) {
  O.No = No;
  O.K = Kind(pv::choose(MaxKind, "kind"));
  O.Id = pv::any<uint32_t>("id");
  O.Named = 1;
  EF R;
  switch (O.K) {
  case SooA:
    return Soo<0>{O.Id};
  case SooB:
    return Soo<1>{O.Id};
  case EmptyK:
    return Empty{};
  case HeapA:
    R = EF(Heap<0>(O.Id, No));
    break;
  case HeapB:
    R = EF(std::in_place_type<Heap<1>>, O.Id, No);
    break;
  case CachedA:
    R = CachedEdgeFunction<Heap<0>>{Heap<0>(O.Id, No), &C};
    O.Cache = &C;
    break;
  default:
    return nullptr;
  }
  O.Mem = R.getOpaqueValue();
  return R;
}
/// Gives every object an arbitrary number of further owners.
void settle(Obj &O) {
  if (!O.heap())
    return;
  pv::ensures(*rc(O.Mem) == uint64_t(O.Named),
              "the count of a new function is its number of handles");
  O.Env = pv::any<uint32_t>("otherOwners");
  *rc(O.Mem) = O.Named + O.Env;
}
void checkHandle(const EF &F, const Obj &O, PSet X) {
  pv::ensures(F.isValid() == (O.K != Null_) && bool(F) == F.isValid() &&
                  (F == nullptr) == !F.isValid(),
              "a handle is null exactly if it holds nothing");
  pv::ensures(F.isRefCounted() == O.heap(), "only heap functions are counted");
  pv::ensures(F.isCached() == (O.K == CachedA),
              "a function is cached exactly if it came from a cache");
  pv::ensures(F.template isa<Soo<0>>() == (O.K == SooA) &&
                  F.template isa<Soo<1>>() == (O.K == SooB) &&
                  F.template isa<Heap<0>>() ==
                      (O.K == HeapA || O.K == CachedA) &&
                  F.template isa<Heap<1>>() == (O.K == HeapB) &&
                  F.template isa<Empty>() == (O.K == EmptyK),
              "a type test succeeds exactly for the stored type");
  const auto *D = F.template dyn_cast<Heap<0>>();
  pv::ensures((D != nullptr) == (O.K == HeapA || O.K == CachedA),
              "a checked cast succeeds exactly for the stored type");
  if (D)
    pv::ensures(D->Id == O.Id, "a checked cast yields the stored function");
  const auto *S = F.template dyn_cast<Soo<1>>();
  pv::ensures((S != nullptr) == (O.K == SooB),
              "a checked cast succeeds exactly for the stored type");
  if (S)
    pv::ensures(S->Id == O.Id, "a checked cast yields the stored function");
  if (O.K == Null_)
    return;
  PSet Want = O.K == EmptyK ? X : Lat<PSet>::apply(O.Id, X);
  pv::ensures(Lat<PSet>::eq(F.computeTarget(X), Want),
              "a handle computes what the wrapped function computes");
  if (O.heap())
    pv::ensures(F.getOpaqueValue() == O.Mem, "handles share one object");
}
/// After an operation: the invariant for one object with N named handles left.
void checkObj(const Obj &O, int N) {
  if (!O.heap())
    return;
  if (pv_concrete_(N + O.Env == 0)) {
    pv::ensures(Destroyed[O.No] == 1,
                "a function is destroyed when its last handle goes away");
    pv::ensures(!pv_is_live_(O.Mem) || !pv::symbolic(),
                "the storage of a destroyed function is released");
    if (O.Cache)
      pv::ensures(O.Cache->Erases == 1 && O.Cache->ErasedId == O.Id,
                  "a destroyed function leaves its cache");
  } else {
    pv::ensures(Destroyed[O.No] == 0,
                "a function is not destroyed while a handle remains");
    pv::ensures(*rc(O.Mem) == N + O.Env,
                "the count is the number of handles");
    if (O.Cache)
      pv::ensures(O.Cache->Erases == 0, "a live function stays in its cache");
  }
}
void reset() {
  for (auto &D : Destroyed)
    D = 0;
}
/// Let the environment give up its handles, so that the contract's own
/// clean-up destroys everything exactly once.
void dropEnv(Obj &O, int N) {
  if (O.heap() && N > 0)
    *rc(O.Mem) = N;
}

enum Op {
  CopyCtor,
  MoveCtor,
  CopyAssign,
  MoveAssign,
  SelfAssign,
  SelfMove,
  NullAssign,
  Swap,
  SelfSwap,
  Destroy,
  MemberSwap,
  NOp
};
/// x holds A, y holds B; or y is a second handle on A.
void opSpec(uint64_t OpNo) {
  reset();
  uint64_t Live0 = pv_live_heap_();
  PSet X = Lat<PSet>::any("x");
  {
    AnyCache<Heap<0>> CA, CB;
    Obj A, B;
    bool Alias = pv::flip("alias");
    alignas(EF) char XB[sizeof(EF)], YB[sizeof(EF)];
    EF &x = *new (XB) EF(make(A, 0, CA));
    EF &y = *new (YB) EF(Alias ? x : make(B, 1, CB));
    A.Named = Alias ? 2 : 1;
    settle(A);
    if (!Alias)
      settle(B);
    Obj &Y = Alias ? A : B;
    Obj N;
    switch (OpNo) {
    case CopyCtor: {
      EF z(x);
      checkHandle(x, A, X), checkHandle(y, Y, X), checkHandle(z, A, X);
      checkObj(A, A.Named + 1);
      if (!Alias)
        checkObj(B, 1);
      break;
    }
    case MoveCtor: {
      EF z(std::move(x));
      checkHandle(x, N, X), checkHandle(y, Y, X), checkHandle(z, A, X);
      checkObj(A, A.Named);
      x = std::move(z);
      break;
    }
    case CopyAssign:
    case MoveAssign: {
      if (OpNo == CopyAssign)
        y = x;
      else
        y = std::move(x);
      checkHandle(y, A, X);
      checkHandle(x, OpNo == CopyAssign ? A : N, X);
      checkObj(A, OpNo == CopyAssign ? 2 : 1);
      if (!Alias)
        checkObj(B, 0);
      if (OpNo == CopyAssign)
        A.Named = 2;
      else
        A.Named = 1;
      dropEnv(A, A.Named);
      x.~EF();
      y.~EF();
      goto Done;
    }
    case SelfAssign: {
      EF &r = x;
      x = r;
      checkHandle(x, A, X), checkHandle(y, Y, X);
      checkObj(A, A.Named);
      break;
    }
    case SelfMove: {
      EF &r = x;
      x = std::move(r);
      checkHandle(x, A, X), checkHandle(y, Y, X);
      checkObj(A, A.Named);
      break;
    }
    case NullAssign: {
      x = nullptr;
      checkHandle(x, N, X), checkHandle(y, Y, X);
      checkObj(A, A.Named - 1);
      if (!Alias)
        checkObj(B, 1);
      dropEnv(A, A.Named - 1);
      dropEnv(B, 1);
      x.~EF();
      y.~EF();
      goto Done;
    }
    case Swap:
    case MemberSwap: {
      if (OpNo == Swap)
        swap(x, y);
      else
        x.swap(y);
      checkHandle(x, Y, X), checkHandle(y, A, X);
      checkObj(A, A.Named);
      if (!Alias)
        checkObj(B, 1);
      break;
    }
    case SelfSwap: {
      swap(x, x);
      checkHandle(x, A, X), checkHandle(y, Y, X);
      checkObj(A, A.Named);
      break;
    }
    case Destroy: {
      x.~EF();
      checkHandle(y, Y, X);
      checkObj(A, A.Named - 1);
      if (!Alias)
        checkObj(B, 1);
      dropEnv(A, A.Named - 1);
      dropEnv(B, 1);
      y.~EF();
      goto Done;
    }
    }
    dropEnv(A, A.Named);
    if (!Alias)
      dropEnv(B, 1);
    x.~EF();
    y.~EF();
  Done:
    if (pv_concrete_(A.Env == 0)) // otherwise: environment handles are not real
      if (pv_concrete_(B.Env == 0))
        pv::ensures(pv_live_heap_() == Live0, "no storage is leaked");
  }
}
} // namespace
PVC_CONTRACT(op_copy_ctor) { opSpec(CopyCtor); }
PVC_CONTRACT(op_move_ctor) { opSpec(MoveCtor); }
PVC_CONTRACT(op_copy_assign) { opSpec(CopyAssign); }
PVC_CONTRACT(op_move_assign) { opSpec(MoveAssign); }
PVC_CONTRACT(op_self_assign) { opSpec(SelfAssign); }
PVC_CONTRACT(op_self_move) { opSpec(SelfMove); }
PVC_CONTRACT(op_null_assign) { opSpec(NullAssign); }
PVC_CONTRACT(op_swap) { opSpec(Swap); }
PVC_CONTRACT(op_member_swap) { opSpec(MemberSwap); }
PVC_CONTRACT(op_self_swap) { opSpec(SelfSwap); }
PVC_CONTRACT(op_destroy) { opSpec(Destroy); }

PVC_CONTRACT(ref_roundtrip) {
  // compose/join hand the concrete function a reference; converting it back
  // yields another handle on the same object, with the same policy.
  reset();
  uint64_t Live0 = pv_live_heap_();
  PSet X = Lat<PSet>::any("x");
  {
    AnyCache<Heap<0>> C;
    Obj A;
    EF x = make(A, 0, C);
    if (A.K == Null_ || A.K == EmptyK)
      return;
    settle(A);
    {
      bool Join = pv::flip("join");
      if (Join && (A.K == SooA || A.K == SooB))
        return;
      EF Other = Empty{};
      EF z = Join ? x.joinWith(Other) : x.composeWith(Other);
      checkHandle(z, A, X), checkHandle(x, A, X);
      checkObj(A, 2);
      if (A.heap()) {
        pv::ensures(Last.Cached == (A.K == CachedA),
                    "a reference knows whether it is cached");
        pv::ensures(Last.Cache == (A.K == CachedA ? &C : nullptr),
                    "a reference knows its cache");
        pv::ensures(Last.Id == A.Id, "a reference denotes the held function");
      }
      if (A.K == HeapA || A.K == CachedA)
        pv::ensures(x.template getCacheOrNull<Heap<0>>() ==
                        (A.K == CachedA ? &C : nullptr),
                    "a handle knows its cache");
    }
    checkObj(A, 1);
    dropEnv(A, 1);
  }
  pv::ensures(pv_live_heap_() == Live0, "no storage is leaked");
}

PVC_CONTRACT(equality) {
  reset();
  AnyCache<Heap<0>> CA, CB;
  Obj A, B;
  EF x = make(A, 0, CA), y = make(B, 1, CB);
  auto Ty = [](const Obj &O) { return O.K == CachedA ? HeapA : O.K; };
  bool Want = pv_and_(Ty(A) == Ty(B),
                      pv_or_(A.K == Null_ || A.K == EmptyK, A.Id == B.Id));
  bool Got = x == y;
  pv::ensures(Got == Want, "handles are equal exactly if type and function are");
  pv::ensures((x != y) == !Want, "inequality is the negation of equality");
  pv::ensures((y == x) == Want, "equality is symmetric");
  if (x.referenceEquals(y))
    pv::ensures(Want, "identical handles are equal");
  EF z = x;
  pv::ensures(z.referenceEquals(x) && z == x, "a copy is identical");
  using DI = llvm::DenseMapInfo<EF>;
  pv::ensures(!(DI::isEqual(DI::getEmptyKey(), DI::getTombstoneKey())),
              "the reserved map keys differ");
  if (x && y) {
    pv::ensures(DI::isEqual(x, y) == Want, "map-key equality is equality");
    pv::ensures(!DI::isEqual(x, DI::getEmptyKey()) &&
                    !DI::isEqual(x, DI::getTombstoneKey()) &&
                    !DI::isEqual(DI::getEmptyKey(), x),
                "no function equals a reserved map key");
  }
}
PVC_CONTRACT(equality_ref) {
  reset();
  AnyCache<Heap<0>> CA, CB;
  static EF *Other;
  static bool Res, Res2;
  struct Probe {
    using l_t = PSet;
    uint32_t Id;
    uint64_t Pad[2];
    PSet computeTarget(PSet X) const { return X; }
    static EF compose(EdgeFunctionRef<Probe> This, const EF &S) {
      Res = This == S;
      Res2 = S == This;
      return S;
    }
    static EF join(EdgeFunctionRef<Probe>, const EF &O) { return O; }
    bool operator==(const Probe &O) const noexcept { return Id == O.Id; }
  };
  Probe P{pv::any<uint32_t>("p"), {1, 2}}, Q{pv::any<uint32_t>("q"), {1, 3}};
  EF x = Probe(P);
  Obj B;
  bool Same = pv::flip("sameType");
  EF y = Same ? EF(Probe(Q)) : make(B, 1, CB);
  if (!y)
    return;
  (void)x.composeWith(y);
  pv::ensures(Res == (Same && pv_and_(true, P.Id == Q.Id)) && Res == Res2,
              "a reference equals a handle exactly if type and function do");
  (void)x.composeWith(x);
  pv::ensures(Res && Res2, "a reference equals its own handle");
}

// ---- construction from a cache, against an arbitrary cache ----------------
PVC_CONTRACT(cached_ctor) {
  reset();
  uint64_t Live0 = pv_live_heap_();
  PSet X = Lat<PSet>::any("x");
  {
    AnyCache<Heap<0>> C;
    uint32_t Id1 = pv::any<uint32_t>("id1"), Id2 = pv::any<uint32_t>("id2");
    EF a = CachedEdgeFunction<Heap<0>>{Heap<0>(Id1, 0), &C};
    pv::ensures(C.Lookups == 1 && C.Inserts == 1, "a new function is inserted");
    pv::ensures(C.InsertedMem == a.getOpaqueValue() && C.InsertedEF->Id == Id1,
                "the cache entry is the shared object");
    pv::ensures(C.InsertedEF == a.template dyn_cast<Heap<0>>(),
                "the cache key lives in the shared object");
    uint64_t E = pv::any<uint32_t>("owners");
    *rc(a.getOpaqueValue()) = 1 + E;
    {
      EF b = CachedEdgeFunction<Heap<0>>{Heap<0>(Id2, 1), &C};
      bool Same = pv_concrete_(Id1 == Id2);
      pv::ensures((a.getOpaqueValue() == b.getOpaqueValue()) == Same,
                  "equal live functions share one instance");
      pv::ensures(C.Inserts == (Same ? 1 : 2), "only new functions are inserted");
      pv::ensures(*rc(a.getOpaqueValue()) == E + (Same ? 2 : 1),
                  "the shared instance counts its handles");
      pv::ensures(Lat<PSet>::eq(b.computeTarget(X), Lat<PSet>::apply(Id2, X)),
                  "a handle computes what the wrapped function computes");
      pv::ensures(b.isCached(), "a function from a cache is cached");
    }
    pv::ensures(*rc(a.getOpaqueValue()) == E + 1, "the count is restored");
    pv::ensures(Destroyed[0] == 0, "a live function is not destroyed");
    *rc(a.getOpaqueValue()) = 1;
  }
  pv::ensures(Destroyed[0] == 1, "destroyed once");
  pv::ensures(pv_live_heap_() == Live0, "no storage is leaked");
}

// ---- DefaultEdgeFunctionSingletonCache ------------------------------------
namespace {
uint32_t HashBits;
template <int Tag> llvm::hash_code hash_value(const Heap<Tag> &H) {
  return llvm::hash_code(size_t((HashBits >> (H.Id & 3)) & 1));
}
} // namespace
PVC_CONTRACT(default_cache) {
  // any three functions out of four distinct ones, with arbitrary hash
  // collisions, released in any order
  pv_note_bounded_("at most 3 functions alive in one cache");
  reset();
  uint64_t Live0 = pv_live_heap_();
  {
    HashBits = uint32_t(pv::choose(4, "hash"));
    DefaultEdgeFunctionSingletonCache<Heap<0>> Cache;
    uint32_t Id[3];
    EF H[3];
    for (uint32_t I = 0; I < 3; ++I) {
      Id[I] = uint32_t(pv::choose(3, "id"));
      H[I] = Cache.createEdgeFunction(Id[I], 3u);
      for (uint32_t J = 0; J < I; ++J)
        pv::ensures((H[I].getOpaqueValue() == H[J].getOpaqueValue()) ==
                        (Id[I] == Id[J]),
                    "one shared instance per equal function while it is alive");
    }
    uint32_t Dead = uint32_t(pv::choose(3, "first"));
    H[Dead] = nullptr;
    bool StillHeld = false;
    for (uint32_t J = 0; J < 3; ++J)
      if (J != Dead) {
        StillHeld |= Id[J] == Id[Dead];
        Heap<0> Key(Id[J], 3);
        pv::ensures(Cache.lookup(Key) == H[J].getOpaqueValue(),
                    "a live function is found");
      }
    Heap<0> Key(Id[Dead], 3);
    pv::ensures((Cache.lookup(Key) != nullptr) == StillHeld,
                "a dead function is not found");
    EF N = Cache.createEdgeFunction(Id[Dead], 3u);
    pv::ensures(Cache.lookup(Key) == N.getOpaqueValue(),
                "a function can be created again");
    for (uint32_t J = 0; J < 3; ++J)
      if (J != Dead)
        pv::ensures((N.getOpaqueValue() == H[J].getOpaqueValue()) ==
                        (Id[Dead] == Id[J]),
                    "one shared instance per equal function while it is alive");
  }
  pv::ensures(pv_live_heap_() == Live0, "no storage is leaked");
}
// ---- keeping functions alive through nested handles -----------------------
PVC_CONTRACT(nested_ownership) {
  reset();
  uint64_t Live0 = pv_live_heap_();
  PSet X = Lat<PSet>::any("x");
  {
    AnyCache<Heap<0>> CA;
    Obj A;
    EF In = make(A, 0, CA);
    if (A.K == Null_)
      return;
    EF Out = pv::AnyComp<PSet>{In, EF(Soo<1>{pv::any<uint32_t>("s")})};
    PSet Want = Out.computeTarget(X);
    In = nullptr;
    EF Copy = Out;
    Out = nullptr;
    pv::ensures(Destroyed[0] == 0, "a function held by a function stays alive");
    pv::ensures(Lat<PSet>::eq(Copy.computeTarget(X), Want),
                "a nested function keeps computing the same");
  }
  pv::ensures(Destroyed[0] <= 1, "destroyed at most once");
  pv::ensures(pv_live_heap_() == Live0, "no storage is leaked");
}
