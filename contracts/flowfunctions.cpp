// Contracts: the flow-function building blocks
// (include/phasar/DataFlow/IfdsIde/FlowFunctions.h and strongUpdateStore of
// LLVMFlowFunctions.h)
//
// Two kinds of containers: GhostSet stands for an arbitrary finite set of
// which one arbitrary element Y is observed (no bound on the sizes), and
// std::set with its real bodies.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"

using namespace psr;

namespace {
/// A fact whose moved-from state is visible.
struct Tok {
  uint64_t V = 0;
  Tok() = default;
  Tok(uint64_t V) : V(V) {}
  Tok(const Tok &) = default;
  Tok(Tok &&O) noexcept : V(O.V) { O.V = Moved; }
  Tok &operator=(const Tok &) = default;
  Tok &operator=(Tok &&O) noexcept {
    V = O.V;
    if (&O != this)
      O.V = Moved;
    return *this;
  }
  static constexpr uint64_t Moved = ~uint64_t(0);
  friend bool operator==(const Tok &A, const Tok &B) { return A.V == B.V; }
  friend bool operator!=(const Tok &A, const Tok &B) { return A.V != B.V; }
  friend bool operator<(const Tok &A, const Tok &B) { return A.V < B.V; }
};
uint64_t val(const Tok &T) { return T.V; }
uint64_t val(uint64_t T) { return T; }
template <typename D> D fact(const char *N) {
  uint64_t V = pv::any<uint64_t>(N);
  pv::assume(V != Tok::Moved);
  return D(V);
}

/// An arbitrary finite set, observed at the single arbitrary element Y.
template <typename D> struct GhostSet {
  using value_type = D;
  using key_type = D;
  using size_type = size_t;
  static uint64_t Y;
  bool Has = false;
  uint64_t Sz = 0;
  D Elem{};

  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = D;
    using difference_type = ptrdiff_t;
    using pointer = const D *;
    using reference = const D &;
    const D *P;
    const D &operator*() const { return *P; }
    const D *operator->() const { return P; }
    iterator &operator++() {
      ++P;
      return *this;
    }
    iterator operator++(int) {
      iterator T = *this;
      ++P;
      return T;
    }
    friend bool operator==(iterator A, iterator B) { return A.P == B.P; }
    friend bool operator!=(iterator A, iterator B) { return A.P != B.P; }
  };
  using const_iterator = iterator;

  GhostSet() = default;
  GhostSet(std::initializer_list<D> L) {
    for (const D &X : L)
      insert(X);
  }
  template <typename It, typename = typename std::iterator_traits<It>::value_type>
  GhostSet(It B, It E) {
    insert(B, E);
  }
  /// arbitrary contents
  static GhostSet any(const char *N) {
    GhostSet R;
    R.Has = pv::flip(N);
    R.Sz = pv::any<uint32_t>(N);
    pv::assume(R.Has ? R.Sz >= 1 : true);
    if (R.Has)
      R.Elem = D(Y);
    return R;
  }
  static GhostSet apply(uint64_t Fn, uint64_t X) {
    GhostSet R;
    R.Has = pv_concrete_(pv_uf3("ff_has", Fn, X, Y) & 1);
    R.Sz = pv_uf2("ff_size", Fn, X) & 0xffffffff;
    pv::assume(R.Has ? R.Sz >= 1 : true);
    if (R.Has)
      R.Elem = D(Y);
    return R;
  }
  std::pair<iterator, bool> insert(const D &X) {
    pv::ensures(val(X) != Tok::Moved, "no moved-from fact is inserted");
    bool New;
    if (val(X) == Y) {
      New = !Has;
      Has = true;
      Elem = X;
    } else {
      New = pv::any<bool>("new element");
    }
    if (New)
      ++Sz;
    else
      pv::assume(Sz >= 1);
    return {iterator{&Elem}, New};
  }
  iterator insert(iterator, const D &X) { return insert(X).first; }
  template <typename It, typename = typename std::iterator_traits<It>::value_type>
  void insert(It B, It E) {
    for (; B != E; ++B)
      insert(*B);
  }
  void insert(std::initializer_list<D> L) { insert(L.begin(), L.end()); }
  template <typename... A> std::pair<iterator, bool> emplace(A &&...Args) {
    return insert(D(std::forward<A>(Args)...));
  }
  size_t count(const D &X) const {
    if (val(X) == Y)
      return Has;
    if (Sz == 0)
      return 0;
    return pv::any<bool>("contains another element");
  }
  bool contains(const D &X) const { return count(X); }
  iterator find(const D &X) const {
    return count(X) ? iterator{&Elem} : end();
  }
  size_t erase(const D &X) {
    size_t R = count(X);
    if (val(X) == Y)
      Has = false;
    Sz -= R;
    return R;
  }
  iterator erase(iterator It) {
    if (It.P == &Elem) {
      Has = false;
      --Sz;
    }
    return end();
  }
  template <typename... A> iterator emplace_hint(iterator, A &&...Args) {
    return insert(D(std::forward<A>(Args)...)).first;
  }
  void merge(GhostSet &O) { insert(O.begin(), O.end()); }
  void clear() {
    Has = false;
    Sz = 0;
  }
  void reserve(size_t) {}
  void swap(GhostSet &O) { std::swap(*this, O); }
  friend void swap(GhostSet &A, GhostSet &B) { std::swap(A, B); }
  size_t size() const { return Sz; }
  bool empty() const { return Sz == 0; }
  iterator begin() const { return {Has ? &Elem : &Elem + 1}; }
  iterator end() const { return {&Elem + 1}; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
};
template <typename D> uint64_t GhostSet<D>::Y;

// ---- uniform view of both containers ---------------------------------------
template <typename C> struct Con;
template <typename D> struct Con<GhostSet<D>> {
  using C = GhostSet<D>;
  static constexpr int Reps = 2;
  static void observe() {
    C::Y = pv::any<uint64_t>("y");
    pv::assume(C::Y != Tok::Moved);
  }
  static uint64_t y() { return C::Y; }
  static C any(const char *N) { return C::any(N); }
  static C apply(uint64_t F, uint64_t X) { return C::apply(F, X); }
  static bool has(const C &S) { return S.Has; }
};
uint64_t SetY;
uint64_t SetTwo; ///< the nested function with two targets
template <typename D> struct Con<std::set<D>> {
  using C = std::set<D>;
  static constexpr int Reps = 1;
  static void observe() {
    SetY = fact<uint64_t>("y");
    SetTwo = pv::choose(3, "the function with two targets");
  }
  static uint64_t y() { return SetY; }
  static C any(const char *N) {
    pv_note_bounded_("std::set operands of at most two elements");
    C R;
    uint64_t K = pv::choose(3, N);
    for (uint64_t I = 0; I < K; ++I)
      R.insert(fact<D>(N));
    return R;
  }
  static C apply(uint64_t F, uint64_t X) {
    pv_note_bounded_("nested flow functions with one or two std::set targets");
    C R;
    uint64_t K = 1 + (F == SetTwo);
    for (uint64_t I = 0; I < K; ++I) {
      uint64_t V = pv_uf3("ff_elem", F, X, I);
      pv::assume(V != Tok::Moved);
      R.insert(D(V));
    }
    return R;
  }
  static bool has(const C &S) {
    bool R = false;
    for (const D &X : S)
      R = pv_or_(R, val(X) == SetY);
    return R;
  }
};

template <typename D, typename C> struct AnyFF final : FlowFunction<D, C> {
  uint64_t Id;
  AnyFF(uint64_t Id) : Id(Id) {}
  C computeTargets(D Source) override {
    pv::ensures(val(Source) != Tok::Moved,
                "nested functions see the unmoved fact");
    return Con<C>::apply(Id, val(Source));
  }
};
bool pred(uint64_t X) { return pv_concrete_(pv_uf1("pred", X) & 1); }

template <typename D, typename C> struct Spec {
  using T = FlowFunctionTemplates<D, C>;
  using K = Con<C>;
  using FF = FlowFunction<D, C>;
  /// Applies F to two arbitrary facts in a row; the membership of the observed
  /// element must be Want(x, y) for both.
  template <typename F, typename W>
  static void check(const F &Fn, W Want, const char *Label) {
    static_assert(is_flowfunction_v<std::decay_t<decltype(*Fn)>>);
    FF &Base = *Fn;
    for (int I = 0; I < K::Reps; ++I) {
      D X = fact<D>(I ? "x2" : "x1");
      uint64_t V = val(X);
      C R = Base.computeTargets(X);
      pv::ensures(K::has(R) == Want(V, K::y()), Label);
    }
  }
  static void basic() {
    K::observe();
    D G = fact<D>("v"), W = fact<D>("w");
    uint64_t GV = val(G), WV = val(W);
    switch (pv::choose(12, "combinator")) {
    case 0:
      check(T::identityFlow(), [](auto X, auto Y) { return X == Y; },
            "identityFlow keeps exactly the fact");
      check(T::identityFlow(), [](auto X, auto Y) { return X == Y; },
            "identityFlow keeps exactly the fact");
      break;
    case 1:
      check(T::lambdaFlow([](D S) { return K::apply(7, val(S)); }),
            [](auto X, auto) { return K::has(K::apply(7, X)); },
            "lambdaFlow yields what the callable yields");
      break;
    case 2:
      check(T::generateFlow(G, W),
            [=](auto X, auto Y) {
              return pv_or_(Y == X, pv_and_(X == WV, Y == GV));
            },
            "generateFlow: f(w)={v,w}, f(x)={x}");
      break;
    case 3:
      check(T::generateFlowIf(G, [](D S) { return pred(val(S)); }),
            [=](auto X, auto Y) {
              return pv_or_(Y == X, pv_and_(pred(X), Y == GV));
            },
            "generateFlowIf: f(x)={v,x} if p(x), else {x}");
      break;
    case 4:
      check(T::killFlow(G),
            [=](auto X, auto Y) { return pv_and_(Y == X, X != GV); },
            "killFlow: f(v)={}, f(x)={x}");
      break;
    case 5:
      check(T::killFlowIf([](D S) { return pred(val(S)); }),
            [=](auto X, auto Y) { return pv_and_(Y == X, !pred(X)); },
            "killFlowIf: f(x)={} if p(x), else {x}");
      break;
    case 6:
      check(T::killAllFlows(), [](auto, auto) { return false; },
            "killAllFlows: f(x)={}");
      break;
    case 7:
      check(T::generateFlowAndKillAllOthers(G, W),
            [=](auto X, auto Y) {
              return pv_and_(X == WV, pv_or_(Y == X, Y == GV));
            },
            "generateFlowAndKillAllOthers: f(w)={v,w}, f(x)={}");
      break;
    case 8:
      check(T::transferFlow(G, W),
            [=](auto X, auto Y) {
              return pv_or_(pv_and_(X == WV, pv_or_(Y == WV, Y == GV)),
                            pv_and_(pv_and_(X != WV, X != GV), Y == X));
            },
            "transferFlow: f(w)={v,w}, f(v)={}, f(x)={x}");
      break;
    case 9: // predicates held by value: a stateful callable object
      check(T::generateFlowIf(G, Is{WV}),
            [=](auto X, auto Y) {
              return pv_or_(Y == X, pv_and_(X == WV, Y == GV));
            },
            "generateFlowIf keeps its predicate");
      break;
    case 10:
      check(T::killFlowIf(Is{WV}),
            [=](auto X, auto Y) { return pv_and_(Y == X, X != WV); },
            "killFlowIf keeps its predicate");
      break;
    default:
      check(T::killFlowIf(TrueFn{}), [](auto, auto) { return false; },
            "killFlowIf(true) kills everything");
    }
  }
  struct Is {
    uint64_t V;
    bool operator()(const D &X) const { return val(X) == V; }
  };
  /// Combinators that hold a set of facts.
  static void many() {
    K::observe();
    C S = K::any("facts");
    bool In = K::has(S);
    C Copy = S;
    D W = fact<D>("w");
    uint64_t WV = val(W), Y = K::y();
    switch (pv::choose(3, "combinator")) {
    case 0:
      check(T::generateManyFlows(std::move(Copy), W),
            [=](auto X, auto) { return pv_or_(Y == X, pv_and_(X == WV, In)); },
            "generateManyFlows: f(w)={v1..vN,w}, f(x)={x}");
      break;
    case 1:
      check(T::generateManyFlowsAndKillAllOthers(std::move(Copy), W),
            [=](auto X, auto) { return pv_and_(X == WV, pv_or_(Y == X, In)); },
            "generateManyFlowsAndKillAllOthers: f(w)={v1..vN,w}, f(x)={}");
      break;
    default:
      check(T::killManyFlows(std::move(Copy)),
            [=](auto X, auto) { return pv_and_(Y == X, !In); },
            "killManyFlows: f(vi)={}, f(x)={x}");
    }
  }
  /// ... given as an initializer list / a vector
  static void manyLists() {
    K::observe();
    D A = fact<D>("a"), B = fact<D>("b"), W = fact<D>("w");
    uint64_t AV = val(A), BV = val(B), WV = val(W), Y = K::y();
    bool In = pv_or_(AV == Y, BV == Y);
    std::initializer_list<D> L = {A, B};
    std::vector<D> Vec;
    Vec.push_back(A);
    Vec.push_back(B);
    switch (pv::choose(6, "combinator")) {
    case 0:
      check(T::generateManyFlows(std::initializer_list<D>{A, B}, W),
            [=](auto X, auto) { return pv_or_(Y == X, pv_and_(X == WV, In)); },
            "generateManyFlows from a list");
      break;
    case 1:
      check(T::generateManyFlows(Vec, W),
            [=](auto X, auto) { return pv_or_(Y == X, pv_and_(X == WV, In)); },
            "generateManyFlows from a vector");
      break;
    case 2:
      check(T::generateManyFlowsAndKillAllOthers(L, W),
            [=](auto X, auto) { return pv_and_(X == WV, pv_or_(Y == X, In)); },
            "generateManyFlowsAndKillAllOthers from a list");
      break;
    case 3:
      check(T::generateManyFlowsAndKillAllOthers(Vec, W),
            [=](auto X, auto) { return pv_and_(X == WV, pv_or_(Y == X, In)); },
            "generateManyFlowsAndKillAllOthers from a vector");
      break;
    case 4:
      check(T::killManyFlows(L),
            [=](auto X, auto) { return pv_and_(Y == X, !In); },
            "killManyFlows from a list");
      break;
    default:
      check(T::killManyFlows(Vec),
            [=](auto X, auto) { return pv_and_(Y == X, !In); },
            "killManyFlows from a vector");
    }
    pv::ensures(Vec.size() == 2 && val(Vec[0]) == AV && val(Vec[1]) == BV,
                "the given facts are not modified");
  }
  static void unions() {
    K::observe();
    T Tm;
    std::shared_ptr<FF> F = std::make_shared<AnyFF<D, C>>(1),
                        G = std::make_shared<AnyFF<D, C>>(2);
    check(Tm.template unionFlows<FF, FF>(F, G),
          [](auto X, auto) {
            return pv_or_(K::has(K::apply(1, X)), K::has(K::apply(2, X)));
          },
          "unionFlows: f(x) is the union of both");
    check(Tm.template unionFlows<FF, FF>(F, F),
          [](auto X, auto) { return K::has(K::apply(1, X)); },
          "unionFlows of a function with itself");
  }
  static void zeroed() {
    K::observe();
    D Z = fact<D>("zero");
    uint64_t ZV = val(Z);
    std::shared_ptr<FF> F = std::make_shared<AnyFF<D, C>>(1);
    check(std::make_shared<ZeroedFlowFunction<D, C>>(F, Z),
          [=](auto X, auto Y) {
            return pv_or_(K::has(K::apply(1, X)),
                          pv_and_(X == ZV, Y == ZV));
          },
          "the zero fact is added to what the function yields for zero, "
          "nothing else");
  }

  // ---- legacy classes ------------------------------------------------------
  template <typename F, typename... A> static std::shared_ptr<F> mk(A &&...As) {
    return std::make_shared<F>(std::forward<A>(As)...);
  }
  static void legacy() {
    K::observe();
    D G = fact<D>("v"), W = fact<D>("w");
    uint64_t GV = val(G), WV = val(W), Y = K::y();
    switch (pv::choose(9, "class")) {
    case 0:
      check(Identity<D, C>::getInstance(),
            [=](auto X, auto) { return X == Y; }, "Identity");
      break;
    case 1: {
      auto L = [](D S) { return K::apply(7, val(S)); };
      check(mk<LambdaFlow<D, decltype(L), C>>(L),
            [=](auto X, auto) { return K::has(K::apply(7, X)); }, "LambdaFlow");
      break;
    }
    case 2:
      check(mk<Gen<D, C>>(G, W),
            [=](auto X, auto) {
              return pv_or_(Y == X, pv_and_(X == WV, Y == GV));
            },
            "Gen");
      break;
    case 3:
      check(mk<GenIf<D, C>>(G, [](D S) { return pred(val(S)); }),
            [=](auto X, auto) {
              return pv_or_(Y == X, pv_and_(pred(X), Y == GV));
            },
            "GenIf");
      break;
    case 4:
      check(mk<Kill<D, C>>(G),
            [=](auto X, auto) { return pv_and_(Y == X, X != GV); }, "Kill");
      break;
    case 5:
      check(mk<KillIf<D, C>>([](D S) { return pred(val(S)); }),
            [=](auto X, auto) { return pv_and_(Y == X, !pred(X)); }, "KillIf");
      break;
    case 6:
      check(mk<GenAndKillAllOthers<D, C>>(G, W),
            [=](auto X, auto) {
              return pv_and_(X == WV, pv_or_(Y == X, Y == GV));
            },
            "GenAndKillAllOthers");
      break;
    case 7:
      check(mk<Transfer<D, C>>(G, W),
            [=](auto X, auto) {
              return pv_or_(pv_and_(X == WV, pv_or_(Y == WV, Y == GV)),
                            pv_and_(pv_and_(X != WV, X != GV), Y == X));
            },
            "Transfer");
      break;
    default:
      check(mk<Union<D, C>>(std::vector<std::shared_ptr<FF>>{}),
            [=](auto X, auto) { return X == Y; }, "empty Union is the identity");
    }
  }
  static void legacyMany() {
    K::observe();
    C S = K::any("facts");
    bool In = K::has(S);
    D W = fact<D>("w");
    uint64_t WV = val(W), Y = K::y();
    switch (pv::choose(4, "class")) {
    case 0:
      check(mk<GenAll<D, C>>(S, W),
            [=](auto X, auto) { return pv_or_(Y == X, pv_and_(X == WV, In)); },
            "GenAll");
      break;
    case 1:
      check(mk<GenAllAndKillAllOthers<D, C>>(S, W),
            [=](auto X, auto) { return pv_and_(X == WV, pv_or_(Y == X, In)); },
            "GenAllAndKillAllOthers");
      break;
    case 2:
      check(mk<GenIf<D, C>>(S, [](D X) { return pred(val(X)); }),
            [=](auto X, auto) { return pv_or_(Y == X, pv_and_(pred(X), In)); },
            "GenIf with many facts");
      break;
    default: {
      std::shared_ptr<FF> F = mk<AnyFF<D, C>>(1), G = mk<AnyFF<D, C>>(2);
      check(mk<Union<D, C>>(std::vector<std::shared_ptr<FF>>{F, G}),
            [](auto X, auto) {
              return pv_or_(K::has(K::apply(1, X)), K::has(K::apply(2, X)));
            },
            "Union");
    }
    }
  }
};
using U = uint64_t;
using SG = Spec<U, GhostSet<U>>;
using ST = Spec<Tok, GhostSet<Tok>>;
using SS = Spec<U, std::set<U>>;
using SX = Spec<Tok, std::set<Tok>>;
} // namespace

#define MOST(NAME, FN)                                                         \
  PVC_CONTRACT(NAME##_ghost) { SG::FN(); }                                     \
  PVC_CONTRACT(NAME##_ghost_movable) { ST::FN(); }                             \
  PVC_CONTRACT(NAME##_set) { SS::FN(); }
#define ALL(NAME, FN)                                                          \
  MOST(NAME, FN)                                                               \
  PVC_CONTRACT(NAME##_set_movable) { SX::FN(); }
ALL(basic, basic)
ALL(many, many)
ALL(many_lists, manyLists)
MOST(unions, unions)
MOST(zeroed, zeroed)
ALL(legacy, legacy)
MOST(legacy_many, legacyMany)

// Compose, KillMultiple and KillAll (tied to std::set).
PVC_CONTRACT(legacy_compose) {
  using C = std::set<U>;
  using FF = FlowFunction<U, C>;
  SS::K::observe();
  std::shared_ptr<FF> F = std::make_shared<AnyFF<U, C>>(1),
                      G = std::make_shared<AnyFF<U, C>>(2),
                      Id = Identity<U, C>::getInstance();
  auto Seq = [](U X, U) {
    bool R = false;
    for (U M : Con<C>::apply(1, X))
      R = pv_or_(R, Con<C>::has(Con<C>::apply(2, M)));
    return R;
  };
  using V = std::vector<std::shared_ptr<FF>>;
  switch (pv::choose(5, "shape")) {
  case 0:
    SS::check(Compose<U, C>::compose(V{F, G}), Seq, "Compose: first, then second");
    break;
  case 1:
    SS::check(Compose<U, C>::compose(V{F, Id, G}), Seq,
              "Compose ignores identities");
    break;
  case 2:
    SS::check(Compose<U, C>::compose(V{Id, F}),
              [](U X, U) { return Con<C>::has(Con<C>::apply(1, X)); },
              "Compose of one function");
    break;
  case 3:
    SS::check(Compose<U, C>::compose(V{Id}), [](U X, U Y) { return X == Y; },
              "Compose of nothing is the identity");
    break;
  default:
    SS::check(std::make_shared<Compose<U, C>>(V{Id, F, G}), Seq,
              "Compose: in order");
  }
}
PVC_CONTRACT(legacy_kill_multiple) {
  using C = std::set<U>;
  SS::K::observe();
  C S = Con<C>::any("facts");
  SS::check(std::make_shared<KillMultiple<U>>(S),
            [=](U X, U Y) { return pv_and_(Y == X, !Con<C>::has(S)); },
            "KillMultiple");
  SS::check(KillAll<U>::getInstance(), [](U, U) { return false; }, "KillAll");
}

// ---- strongUpdateStore ----------------------------------------------------
namespace {
const llvm::Value *StoreBase, *StorePtr;
const llvm::Value *fakeStrip(const llvm::Value *V) {
  return V == StorePtr ? StoreBase : V;
}
template <typename C> void strongUpdate() {
  pv::ir::World W;
  auto *I8 = W.intTy(8);
  auto *P = W.arg(W.ptrTy(I8)), *Base = W.arg(W.ptrTy(W.intTy(32))),
       *V = W.arg(I8), *Other = W.arg(I8);
  StorePtr = P;
  bool Casted = pv::flip("pointer is a cast");
  StoreBase = Casted ? Base : P;
  pv::replace(static_cast<const llvm::Value *(llvm::Value::*)() const>(
                  &llvm::Value::stripPointerCasts),
              &fakeStrip);
  auto *St = static_cast<llvm::StoreInst *>(
      W.inst(llvm::Instruction::Store, W.voidTy(), {V, P}));
  const llvm::Value *All[] = {P, Base, V, Other};
  bool WithPred = pv::flip("with predicate");
  auto Pred = [](const llvm::Value *X) {
    return pred(reinterpret_cast<uint64_t>(X));
  };
  FlowFunctionPtrType<const llvm::Value *, C> F;
  if (WithPred)
    F = strongUpdateStore<decltype(Pred), C>(St, std::move(Pred));
  else
    F = strongUpdateStore<C>(St);
  for (int I = 0; I < 2; ++I) {
    const llvm::Value *X = All[pv::choose(4, "x")];
    C R = F->computeTargets(X);
    bool Killed = X == P || (Casted && X == Base);
    bool Gen = !Killed &&
               (WithPred ? pred(reinterpret_cast<uint64_t>(X)) : X == V);
    for (const llvm::Value *Y : All) {
      bool Want = !Killed && (Y == X || (Gen && (Y == P || (Casted && Y == Base))));
      pv::ensures((R.count(Y) != 0) == Want,
                  "the written location is killed and regenerated from the "
                  "stored value only");
    }
    pv::ensures(R.size() == (Killed ? 0u : Gen ? 2u + Casted : 1u),
                "no other fact is generated");
  }
}
} // namespace
PVC_CONTRACT(strong_update_store) { strongUpdate<std::set<const llvm::Value *>>(); }
