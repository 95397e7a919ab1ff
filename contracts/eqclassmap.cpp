// Contracts: include/phasar/Utils/EquivalenceClassMap.h
//
// Invariant: the classes' values are pairwise different, no key is in two
// classes, no class is empty.  Keys and values are arbitrary.
// insert() requires that the key is not yet mapped to another value.
#include "pv/pv.h"

#include <cstdint>

#include "phasar/Utils/EquivalenceClassMap.h"

using namespace psr;

namespace {
/// A value whose equality is coarser than identity, with a visible moved-from
/// state.
struct Val {
  uint64_t V = 0;
  Val() = default;
  Val(uint64_t V) : V(V) {}
  Val(const Val &) = default;
  Val(Val &&O) noexcept : V(O.V) { O.V = ~0ull; }
  Val &operator=(const Val &) = default;
  Val &operator=(Val &&O) noexcept {
    V = O.V;
    O.V = ~0ull;
    return *this;
  }
  friend bool operator==(const Val &A, const Val &B) { return A.V == B.V; }
};
struct Key {
  uint64_t K = 0;
  Key() = default;
  Key(uint64_t K) : K(K) {}
  Key(const Key &) = default;
  Key(Key &&O) noexcept : K(O.K) { O.K = ~0ull; }
  Key &operator=(const Key &) = default;
  friend bool operator<(const Key &A, const Key &B) { return A.K < B.K; }
};
using Map = EquivalenceClassMap<Key, Val>;
struct Ghost {
  uint64_t K[4], V[4];
  unsigned N = 0;
  unsigned Classes = 0;
};
uint64_t anyKey(const char *N) {
  uint64_t K = pv::any<uint64_t>(N);
  pv::assume(K != ~0ull);
  return K;
}
/// An arbitrary state: up to two classes with up to two keys and one key.
Ghost make(Map &M, unsigned MaxClasses = 2) {
  pv_note_bounded_("states with at most two classes of at most two keys");
  Ghost G;
  G.Classes = pv::choose(MaxClasses + 1, "classes");
  for (unsigned C = 0; C < G.Classes; ++C) {
    uint64_t V = anyKey("v");
    std::set<Key> S;
    unsigned N = C + 1 < MaxClasses ? 1 + pv::choose(2, "keys") : 1;
    for (unsigned I = 0; I < N; ++I) {
      uint64_t K = anyKey("k");
      for (unsigned J = 0; J < G.N; ++J)
        pv::assume(J + I < G.N ? G.K[J] != K : G.K[J] < K);
      S.insert(Key(K));
      G.K[G.N] = K;
      G.V[G.N++] = V;
    }
    for (unsigned J = 0; J + N < G.N; ++J)
      pv::assume(G.V[J] != V);
    M.StoredData.emplace_back(std::move(S), Val(V));
  }
  return G;
}
void inv(const Map &M) {
  for (auto I = M.begin(); I != M.end(); ++I) {
    pv::ensures(!I->first.empty(), "inv: no empty class");
    for (auto J = I + 1; J != M.end(); ++J) {
      pv::ensures(!(I->second == J->second),
                  "keys with equal values share one class");
      for (const Key &K : I->first)
        pv::ensures(!J->first.count(K), "no key is in two classes");
    }
  }
}
/// M maps exactly the keys in G
void is(const Map &M, const Ghost &G, unsigned Classes) {
  inv(M);
  pv::ensures(M.size() == Classes && M.numEquivalenceClasses() == Classes &&
                  size_t(M.end() - M.begin()) == Classes,
              "number of classes");
  size_t Keys = 0;
  for (const auto &C : M.equivalenceClasses())
    Keys += C.first.size();
  pv::ensures(Keys == G.N, "the keys are exactly the inserted ones");
  for (unsigned I = 0; I < G.N; ++I) {
    auto It = M.find(Key(G.K[I]));
    pv::ensures(It != M.end() && It->second.V == G.V[I] &&
                    It->first.count(Key(G.K[I])),
                "find: the class of the key");
    pv::ensures(M.count(Key(G.K[I])) == 1, "count of a key");
    auto V = M.findValue(Key(G.K[I]));
    pv::ensures(V && V->V == G.V[I], "findValue: the value it was inserted with");
  }
}
} // namespace

namespace {
void insertOne(unsigned MaxClasses, unsigned How) {
  Map M;
  Ghost G = make(M, MaxClasses);
  uint64_t K = anyKey("key"), V = anyKey("value");
  bool Present = false, Known = false;
  for (unsigned I = 0; I < G.N; ++I) {
    if (G.K[I] == K) {
      pv::assume(G.V[I] == V); // precondition
      Present = true;
    }
    if (G.V[I] == V)
      Known = true;
  }
  Map::insert_return_type R;
  Key KK(K);
  Val VV(V);
  std::pair<Key, Val> P(KK, VV);
  switch (How) {
  case 0:
    R = M.insert(KK, VV);
    break;
  case 1:
    R = M.insert(Key(K), Val(V));
    break;
  case 2:
    R = M.insert(P);
    break;
  case 3:
    R = M.insert(std::make_pair(Key(K), Val(V)));
    break;
  case 4:
    R = M.try_emplace(Key(K), V);
    break;
  case 5:
    R = M.try_emplace(KK, V);
    break;
  default: {
    M.insert(&P, &P + 1);
    R.first = M.find(KK)->first.find(KK);
    R.second = !Present;
  }
  }
  pv::ensures(KK.K == K && VV.V == V && P.first.K == K && P.second.V == V,
              "arguments given by reference are not consumed");
  pv::ensures(R.second == !Present, "insert tells whether the key is new");
  pv::ensures(R.first->K == K, "insert yields the key");
  if (!Present) {
    // G has room: at most four keys
    Ghost H;
    for (unsigned I = 0; I < G.N; ++I) {
      auto F = M.findValue(Key(G.K[I]));
      pv::ensures(F && F->V == G.V[I], "other keys keep their values");
    }
    auto F = M.findValue(Key(K));
    pv::ensures(F && F->V == V, "the key maps to the value it was inserted with");
    inv(M);
    pv::ensures(M.size() == G.Classes + !Known,
                "a class is added only for a new value");
    size_t Keys = 0;
    for (const auto &C : M.equivalenceClasses())
      Keys += C.first.size();
    pv::ensures(Keys == G.N + 1, "exactly one key is added");
  } else {
    is(M, G, G.Classes);
  }
}
} // namespace
PVC_CONTRACT(insert_copy) { insertOne(2, 0); }
PVC_CONTRACT(insert_move) { insertOne(2, 1); }
PVC_CONTRACT(insert_other) { insertOne(1, 2 + pv::choose(5, "how")); }
PVC_CONTRACT(lookup) {
  Map M;
  Ghost G = make(M);
  is(M, G, G.Classes);
  uint64_t K = anyKey("other key");
  for (unsigned I = 0; I < G.N; ++I)
    pv::assume(G.K[I] != K);
  pv::ensures(M.find(Key(K)) == M.end() && !M.findValue(Key(K)) &&
                  M.count(Key(K)) == 0,
              "other keys are not found");
  M.clear();
  G.N = 0;
  is(M, G, 0);
}
PVC_CONTRACT(construct) {
  uint64_t A = anyKey("a"), B = anyKey("b"), V = anyKey("v"), W = anyKey("w");
  pv::assume(A != B);
  Ghost G;
  G.N = 2;
  G.K[0] = A;
  G.V[0] = V;
  G.K[1] = B;
  G.V[1] = W;
  unsigned Classes = V == W ? 1 : 2;
  Map L{{Key(A), Val(V)}, {Key(B), Val(W)}};
  is(L, G, Classes);
  std::pair<Key, Val> P[2] = {{Key(A), Val(V)}, {Key(B), Val(W)}};
  Map R(&P[0], &P[2]);
  is(R, G, Classes);
  Map E(3);
  G.N = 0;
  is(E, G, 0);
}
