// Contracts: minimizeGraph and createEquivalentGraphFrom
// (include/phasar/Utils/DFAMinimizer.h, include/phasar/Utils/AdjacencyList.h)
//
// minimizeGraph's postcondition is a fixpoint of one step of unfolding: states
// of one class have the same label and their transitions correspond (hence, by
// coinduction, the same labels along every word), and states of different
// classes do not (hence, by induction on the height, no two states of an
// acyclic deterministic graph are indistinguishable).
#include "pv/pv.h"
#include <string>

#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/DFAMinimizer.h"

using namespace psr;
namespace {
/// Node label whose moved-from state is visible.
struct Tag {
  uint32_t Name = 0;
  uint32_t Id = 0; // where the label comes from; not compared
  Tag() = default;
  Tag(uint32_t N, uint32_t Id) : Name(N), Id(Id) {}
  Tag(const Tag &) = default;
  Tag &operator=(const Tag &) = default;
  Tag(Tag &&O) noexcept : Name(O.Name), Id(O.Id) { O.Name = O.Id = ~0u; }
  Tag &operator=(Tag &&O) noexcept {
    Name = O.Name;
    Id = O.Id;
    O.Name = O.Id = ~0u;
    return *this;
  }
  friend bool operator==(const Tag &A, const Tag &B) {
    return A.Name == B.Name;
  }
  friend bool operator!=(const Tag &A, const Tag &B) {
    return A.Name != B.Name;
  }
};
/// Edge with a weight.
struct WEdge {
  unsigned To;
  uint32_t Weight;
  friend bool operator==(WEdge A, WEdge B) {
    return A.To == B.To && A.Weight == B.Weight;
  }
  friend bool operator!=(WEdge A, WEdge B) { return !(A == B); }
  friend bool operator<(WEdge A, WEdge B) {
    return A.To != B.To ? A.To < B.To : A.Weight < B.Weight;
  }
};
using Plain = AdjacencyList<Tag>;
/// A graph type with weighted edges.
struct Weighted {
  llvm::SmallVector<Tag, 0> Nodes;
  llvm::SmallVector<llvm::SmallVector<WEdge, 2>, 0> Adj;
  llvm::SmallVector<unsigned, 1> Roots;
};
} // namespace
namespace psr {
template <> struct GraphTraits<Weighted> {
  using graph_type = Weighted;
  using value_type = Tag;
  using vertex_t = unsigned;
  using edge_t = WEdge;
  static inline constexpr auto Invalid = ~0u;
  template <typename TT> static vertex_t addNode(Weighted &G, TT &&Val) {
    G.Nodes.push_back(std::forward<TT>(Val));
    G.Adj.emplace_back();
    return G.Nodes.size() - 1;
  }
  static void addRoot(Weighted &G, vertex_t V) { G.Roots.push_back(V); }
  static llvm::ArrayRef<vertex_t> roots(const Weighted &G) { return G.Roots; }
  static void addEdge(Weighted &G, vertex_t From, WEdge To) {
    G.Adj[From].push_back(To);
  }
  static llvm::ArrayRef<WEdge> outEdges(const Weighted &G, vertex_t V) {
    return G.Adj[V];
  }
  static size_t outDegree(const Weighted &G, vertex_t V) {
    return G.Adj[V].size();
  }
  static void dedupOutEdges(Weighted &G, vertex_t V) {
    auto &Out = G.Adj[V];
    std::sort(Out.begin(), Out.end());
    Out.erase(std::unique(Out.begin(), Out.end()), Out.end());
  }
  static auto vertices(const Weighted &G) {
    return psr::iota(vertex_t(0), vertex_t(G.Nodes.size()));
  }
  static const Tag &node(const Weighted &G, vertex_t V) { return G.Nodes[V]; }
  static Tag &node(Weighted &G, vertex_t V) { return G.Nodes[V]; }
  static size_t size(const Weighted &G) { return G.Nodes.size(); }
  static size_t roots_size(const Weighted &G) { return G.Roots.size(); }
  static vertex_t target(WEdge E) noexcept { return E.To; }
  static WEdge withEdgeTarget(WEdge E, vertex_t T) noexcept {
    return {T, E.Weight};
  }
  static uint32_t weight(WEdge E) noexcept { return E.Weight; }
};
} // namespace psr
namespace {
constexpr unsigned MaxN = 5, MaxD = 3;
/// The contract's own view of a graph.
struct View {
  unsigned N = 0;
  uint32_t Label[MaxN];
  unsigned Deg[MaxN] = {};
  unsigned To[MaxN][MaxD];
  uint32_t W[MaxN][MaxD] = {};
};
void edge(Plain &G, const View &V, unsigned I, unsigned J) {
  GraphTraits<Plain>::addEdge(G, I, V.To[I][J]);
}
void edge(Weighted &G, const View &V, unsigned I, unsigned J) {
  GraphTraits<Weighted>::addEdge(G, I, WEdge{V.To[I][J], V.W[I][J]});
}
template <typename G> G build(const View &V) {
  using T = GraphTraits<G>;
  G R;
  for (unsigned I = 0; I < V.N; ++I)
    T::addNode(R, Tag(V.Label[I], I));
  for (unsigned I = 0; I < V.N; ++I)
    for (unsigned J = 0; J < V.Deg[I]; ++J)
      edge(R, V, I, J);
  return R;
}
uint32_t wt(unsigned) { return 0; }
uint32_t wt(WEdge E) { return E.Weight; }
enum Order { Any, Down, Up };
/// Arbitrary graph of N vertices; vertex 0 has degree D0 (if not negative).
void arbitrary(View &V, unsigned N, unsigned MaxDeg, bool Wt, Order O = Any,
               int D0 = -1) {
  V.N = N;
  for (unsigned I = 0; I < N; ++I) {
    V.Label[I] = pv::any<uint32_t>("label");
    pv::assume(V.Label[I] != ~0u);
    unsigned Lo = O == Down ? I + 1 : 0, Hi = O == Up ? I : N;
    V.Deg[I] = Lo >= Hi             ? 0
               : I == 0 && D0 >= 0 ? D0
                                   : pv::choose(MaxDeg + 1, "degree");
    for (unsigned J = 0; J < V.Deg[I]; ++J) {
      V.To[I][J] = Lo + pv::choose(Hi - Lo, "target");
      V.W[I][J] = Wt ? pv::any<uint32_t>("weight") : 0;
    }
  }
}
/// Do the transitions of A and B correspond (one to one, same weights,
/// targets in the same class)?
bool correspond(const View &V, const unsigned *Cls, unsigned A, unsigned B) {
  if (V.Deg[A] != V.Deg[B])
    return false;
  auto Eq = [&](unsigned I, unsigned J) {
    return pv_and_(Cls[V.To[A][I]] == Cls[V.To[B][J]], V.W[A][I] == V.W[B][J]);
  };
  switch (V.Deg[A]) {
  case 0:
    return true;
  case 1:
    return Eq(0, 0);
  case 2:
    return pv_or_(pv_and_(Eq(0, 0), Eq(1, 1)), pv_and_(Eq(0, 1), Eq(1, 0)));
  default: {
    bool R = false;
    constexpr unsigned P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2},
                                  {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &Q : P)
      R = pv_or_(R, pv_and_(Eq(0, Q[0]), pv_and_(Eq(1, Q[1]), Eq(2, Q[2]))));
    return R;
  }
  }
}
template <typename G> void minimize(const View &V) {
  G Gr = build<G>(V);
  llvm::IntEqClasses Eq = minimizeGraph(Gr);
  unsigned Cls[MaxN] = {};
  for (unsigned I = 0; I < V.N; ++I)
    Cls[I] = Eq[I];
  for (unsigned A = 0; A < V.N; ++A) {
    pv::ensures(Cls[A] < Eq.getNumClasses(), "every state has a class");
    pv::ensures(GraphTraits<G>::node(Gr, A).Name == V.Label[A],
                "minimizing leaves the graph alone");
    for (unsigned B = A + 1; B < V.N; ++B) {
      bool Same = pv_and_(V.Label[A] == V.Label[B], correspond(V, Cls, A, B));
      if (Cls[A] == Cls[B])
        pv::ensures(Same, "merged states have the same label and "
                          "corresponding transitions");
      else
        pv::ensures(!Same, "states of different classes are distinguishable");
    }
  }
}

/// The contract of createEquivalentGraphFrom: for classes that respect the
/// graph (minimizeGraph's postcondition) the result has one state per
/// reachable class.
template <typename G> void rebuild(const View &V) {
  using T = GraphTraits<G>;
  // an arbitrary partition that respects the graph
  unsigned Cls[MaxN] = {}, NC = 0;
  llvm::IntEqClasses Eq(V.N);
  unsigned Rep[MaxN];
  for (unsigned I = 0; I < V.N; ++I) {
    Cls[I] = pv::choose(NC + 1, "class");
    if (Cls[I] == NC)
      Rep[NC++] = I;
    else
      Eq.join(Rep[Cls[I]], I);
  }
  Eq.compress();
  for (unsigned A = 0; A < V.N; ++A) {
    if (Eq[A] != Cls[A])
      pv::ensures(false, "(harness) class numbers");
    for (unsigned B = A + 1; B < V.N; ++B)
      if (Cls[A] == Cls[B])
        pv::assume(pv_and_(V.Label[A] == V.Label[B], correspond(V, Cls, A, B)));
  }
  G Gr = build<G>(V);
  // arbitrary roots
  unsigned Roots[2], NR = pv::choose(3, "roots");
  for (unsigned I = 0; I < NR; ++I) {
    Roots[I] = pv::choose(V.N, "root");
    T::addRoot(Gr, Roots[I]);
  }
  if (NR == 2)
    pv::assume(Roots[0] != Roots[1]);
  G R = createEquivalentGraphFrom(std::move(Gr), Eq);

  // reachable classes
  bool Reach[MaxN] = {};
  for (unsigned I = 0; I < NR; ++I)
    Reach[Cls[Roots[I]]] = true;
  for (unsigned K = 0; K < V.N; ++K)
    for (unsigned I = 0; I < V.N; ++I)
      if (Reach[Cls[I]])
        for (unsigned J = 0; J < V.Deg[I]; ++J)
          Reach[Cls[V.To[I][J]]] = true;
  unsigned NReach = 0;
  for (unsigned C = 0; C < NC; ++C)
    NReach += Reach[C];
  pv::ensures(T::size(R) == NReach, "one state per reachable class");

  unsigned Map[MaxN];
  for (auto &M : Map)
    M = ~0u;
  for (unsigned S : T::vertices(R)) {
    unsigned Id = T::node(R, S).Id;
    if (Id >= V.N) {
      pv::ensures(false, "a state keeps the label of its class");
      return;
    }
    pv::ensures(T::node(R, S).Name == V.Label[Id],
                "a state keeps the label of its class");
    pv::ensures(Reach[Cls[Id]], "only reachable states remain");
    pv::ensures(Map[Cls[Id]] == ~0u, "one state per reachable class");
    Map[Cls[Id]] = S;
  }
  // roots
  for (unsigned X = 0; X < T::roots_size(R); ++X) {
    bool Orig = false;
    for (unsigned I = 0; I < NR; ++I)
      Orig |= Map[Cls[Roots[I]]] == T::roots(R)[X];
    pv::ensures(Orig, "no additional roots");
    for (unsigned Y = X + 1; Y < T::roots_size(R); ++Y)
      pv::ensures(T::roots(R)[X] != T::roots(R)[Y], "no root is duplicated");
  }
  for (unsigned I = 0; I < NR; ++I) {
    bool Found = false;
    for (unsigned X : T::roots(R))
      Found |= Map[Cls[Roots[I]]] == X;
    pv::ensures(Found, "every root remains a root");
  }
  // transitions
  for (unsigned I = 0; I < V.N; ++I) {
    if (!Reach[Cls[I]])
      continue;
    auto Out = T::outEdges(R, Map[Cls[I]]);
    for (unsigned J = 0; J < V.Deg[I]; ++J) {
      bool Found = false;
      for (auto E : Out)
        Found = pv_or_(Found, pv_and_(T::target(E) == Map[Cls[V.To[I][J]]],
                                      wt(E) == V.W[I][J]));
      pv::ensures(Found, "every transition remains");
    }
    for (unsigned X = 0; X < Out.size(); ++X) {
      bool Orig = false;
      for (unsigned J = 0; J < V.Deg[I]; ++J)
        Orig = pv_or_(Orig,
                      pv_and_(wt(Out[X]) == V.W[I][J],
                              T::target(Out[X]) == Map[Cls[V.To[I][J]]]));
      pv::ensures(Orig, "every remaining transition existed before");
      for (unsigned Y = X + 1; Y < Out.size(); ++Y)
        pv::ensures(!(Out[X] == Out[Y]), "no transition is duplicated");
    }
  }
}
} // namespace

#define NOTE pv_note_bounded_("graphs of at most four states")
// ---- minimizeGraph
#define MIN(NAME, TY, ...)                                                     \
  PVC_CONTRACT(minimize_##NAME) {                                              \
    NOTE;                                                                      \
    View V;                                                                    \
    arbitrary(V, __VA_ARGS__);                                                 \
    minimize<TY>(V);                                                           \
  }
MIN(small, Plain, pv::choose(3, "states"), 2, false)
MIN(three_0, Plain, 3, 2, false, Any, 0)
MIN(three_1, Plain, 3, 2, false, Any, 1)
MIN(three_2, Plain, 3, 2, false, Any, 2)
MIN(four_chain_0, Plain, 4, 1, false, Any, 0)
MIN(four_chain_1, Plain, 4, 1, false, Any, 1)
MIN(four_down_0, Plain, 4, 2, false, Down, 0)
MIN(four_down_1, Plain, 4, 2, false, Down, 1)
MIN(four_down_2, Plain, 4, 2, false, Down, 2)
MIN(four_up, Plain, 4, 2, false, Up)
MIN(weighted_0, Weighted, 3, 2, true, Down)
MIN(weighted_1, Weighted, 3, 1, true, Any)
MIN(weighted_2, Weighted, 2, 2, true, Any)
/// three transitions, in any order
PVC_CONTRACT(minimize_wide) {
  NOTE;
  View V;
  V.N = 5;
  for (unsigned I = 0; I < 5; ++I) {
    V.Label[I] = pv::any<uint32_t>("label");
    V.Deg[I] = I < 2 ? 3 : 0;
  }
  for (unsigned I = 0; I < 2; ++I)
    for (unsigned J = 0; J < 3; ++J)
      V.To[I][J] = 2 + pv::choose(3, "target");
  minimize<Plain>(V);
}
// ---- createEquivalentGraphFrom
#define REB(NAME, TY, ...)                                                     \
  PVC_CONTRACT(rebuild_##NAME) {                                               \
    NOTE;                                                                      \
    View V;                                                                    \
    arbitrary(V, __VA_ARGS__);                                                 \
    rebuild<TY>(V);                                                            \
  }
REB(small, Plain, pv::choose(3, "states"), 2, false)
REB(three_0, Plain, 3, 2, false, Any, 0)
REB(three_1, Plain, 3, 2, false, Any, 1)
REB(three_2, Plain, 3, 2, false, Any, 2)
REB(four_down, Plain, 4, 1, false, Down)
REB(four_up, Plain, 4, 1, false, Up)
REB(weighted, Weighted, 2, 2, true)
