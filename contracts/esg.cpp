// Contracts: include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
//
// The graph is put into an arbitrary valid state (class invariant below) around
// the vertices that one recorded propagation touches; saveEdges is then run once
// and must record exactly that propagation and keep the invariant.  Statements
// and facts are only compared and hashed; a moved-from fact is a different fact.
#include "pv/pv.h"

#include "llvm/ADT/Hashing.h"
#include "llvm/Support/raw_ostream.h"

#include <string>
#include <vector>

namespace {
constexpr unsigned Poison = 29;
struct Fact {
  unsigned V = Poison - 1;
  Fact() = default;
  Fact(unsigned X) : V(X) {}
  Fact(const Fact &) = default;
  Fact(Fact &&O) noexcept : V(O.V) { O.V = Poison; }
  Fact &operator=(const Fact &) = default;
  Fact &operator=(Fact &&O) noexcept {
    V = O.V;
    if (this != &O)
      O.V = Poison;
    return *this;
  }
  ~Fact() {}
  friend bool operator==(const Fact &A, const Fact &B) { return A.V == B.V; }
  friend bool operator!=(const Fact &A, const Fact &B) { return A.V != B.V; }
  friend bool operator<(const Fact &A, const Fact &B) { return A.V < B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Fact &) {
    return OS;
  }
};
struct BB {};
struct Inst {
  const BB *Parent = nullptr;
  const BB *getParent() const { return Parent; }
};
using Stmt = const Inst *;
BB Blocks[2];
Inst Insts[4];
} // namespace
namespace std {
template <> struct hash<Fact> {
  size_t operator()(const Fact &F) const noexcept { return F.V; }
};
} // namespace std

#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/ControlFlow/ICFGBase.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h"
#include "phasar/Domain/BinaryDomain.h"

using namespace psr;
using pv::ensures;

namespace {
class ICF;
class DB;
} // namespace
namespace psr {
template <> struct CFGTraits<ICF> {
  using n_t = Stmt;
  using f_t = int;
};
template <> struct ProjectIRDBTraits<DB> {
  using n_t = Stmt;
  using f_t = int;
  using m_t = int;
  using g_t = int;
};
} // namespace psr
namespace {
class ICF {
public:
  using n_t = Stmt;
  using f_t = int;
};
struct Dom {
  using n_t = Stmt;
  using d_t = Fact;
  using f_t = int;
  using t_t = int;
  using v_t = int;
  using l_t = BinaryDomain;
  using i_t = ICF;
  using c_t = ICF;
  using db_t = DB;
  using mono_container_t = std::set<Fact>;
};
using ESG = ExplodedSuperGraph<Dom>;
constexpr size_t None = ~size_t(0);
constexpr unsigned Zero = 0;

Stmt stmt(unsigned I) { return &Insts[I]; }

/// A snapshot of the graph.
struct Snap {
  struct N {
    unsigned Value;
    Stmt Source;
    size_t Pred;
    std::vector<size_t> NB;
  };
  std::vector<N> Nodes;
  size_t Map[4][4]; // statement x fact
  explicit Snap(const ESG &G) {
    for (size_t I = 0; I < G.NodeDataOwner.size(); ++I) {
      auto &A = G.NodeAdjOwner[I];
      Nodes.push_back({G.NodeDataOwner[I].Value.V, G.NodeDataOwner[I].Source,
                       A.PredecessorIdx,
                       std::vector<size_t>(A.Neighbors.begin(),
                                           A.Neighbors.end())});
    }
    for (unsigned S = 0; S < 4; ++S)
      for (unsigned D = 0; D < 4; ++D) {
        Map[S][D] = None;
        if (S == 2 || (S == 3) != (D == 3))
          continue;
        auto R = G.getNodeOrNull(stmt(S), Fact(D));
        Map[S][D] = R ? R.id() : None;
      }
  }
  /// does a walk over predecessors and neighbours from I reach a root
  /// (other than Not)?
  bool grounded(size_t I, size_t Not = None) const {
    unsigned Seen = 1U << I;
    for (unsigned Before = 0; Before != Seen;) {
      Before = Seen;
      for (size_t K = 0; K < Nodes.size(); ++K)
        if (Before >> K & 1) {
          if (Nodes[K].Pred != None)
            Seen |= 1U << Nodes[K].Pred;
          else if (K != Not)
            return true;
          for (size_t NB : Nodes[K].NB)
            Seen |= 1U << NB;
        }
    }
    return false;
  }
  /// is an edge from P recorded at T (P none: T is, or has, a root)?
  bool linked(size_t T, size_t P) const {
    if (Nodes[T].Pred == P)
      return true;
    for (size_t NB : Nodes[T].NB)
      if (Nodes[NB].Pred == P)
        return true;
    return false;
  }
};

/// The class invariant.
bool valid(const Snap &X) {
  for (size_t I = 0; I < X.Nodes.size(); ++I)
    if (X.Nodes[I].Pred != None && X.Nodes[I].Pred >= X.Nodes.size())
      return false;
  for (size_t I = 0; I < X.Nodes.size(); ++I) {
    if (!X.grounded(I))
      return false;
    for (size_t NB : X.Nodes[I].NB)
      if (NB >= X.Nodes.size() || X.Nodes[NB].Value != X.Nodes[I].Value ||
          !X.Nodes[NB].NB.empty() || NB == I)
        return false;
  }
  for (unsigned S = 0; S < 4; ++S)
    for (unsigned D = 0; D < 4; ++D)
      if (X.Map[S][D] != None &&
          (X.Map[S][D] >= X.Nodes.size() ||
           X.Nodes[X.Map[S][D]].Value != D))
        return false;
  return true;
}

size_t put(ESG &G, unsigned Value, Stmt Source) {
  G.NodeDataOwner.emplace_back();
  G.NodeDataOwner.back().Value = Fact(Value);
  G.NodeDataOwner.back().Source = Source;
  G.NodeAdjOwner.emplace_back();
  return G.NodeDataOwner.size() - 1;
}
void setMap(ESG &G, Stmt S, unsigned D, size_t Id) {
  G.FlowFactVertexMap[std::make_pair(S, Fact(D))] = Id;
}
size_t pickPred(std::initializer_list<size_t> L) {
  std::vector<size_t> V{None};
  for (size_t X : L)
    if (X != None)
      V.push_back(X);
  return V[pv::choose(V.size(), "predecessor")];
}

/// What one call of saveEdges must have done for one target fact.
void checkEdge(const Snap &A, const Snap &B, unsigned Curr, unsigned D,
               unsigned Succ, unsigned X, ESGEdgeKind Kind) {
  const size_t P = A.Map[Curr][D], Old = A.Map[Succ][X], T = B.Map[Succ][X];
  ensures(T != None, "the target vertex is found by lookup");
  if (T == None)
    return;
  const bool Skip = Kind == ESGEdgeKind::CallToRet && D == Zero && X == Zero;
  const bool Ident =
      P != None && A.Nodes[P].Value == X && X != Zero && !Skip &&
      A.Nodes[P].Source->getParent() == stmt(Succ)->getParent();
  if (Old == None) {
    if (Ident)
      ensures(T == P, "an identity edge in a block shares the source's vertex");
    else if (Succ != Curr || X != D || P != None)
      ensures(T >= A.Nodes.size() && B.Nodes[T].Source == stmt(Curr) &&
                  B.Nodes[T].NB.empty(),
              "a new vertex remembers the statement it was reached from");
  } else {
    ensures(T == Old, "the vertex of a statement and a fact is created once");
  }
  if (Skip) {
    ensures(Old != None ? B.Nodes[T].Pred == A.Nodes[T].Pred
                        : B.Nodes[T].Pred == None,
            "call-to-return edges of the zero value are skipped");
    return;
  }
  if (Old != None && P != None && T != P && A.Nodes[T].Pred == None &&
      A.grounded(P, T))
    ensures(B.Nodes[T].Pred == P, "a vertex without predecessor is connected "
                                  "unless that cuts it off from all roots");
  ensures((T == P && X == D) || B.linked(T, P),
          "the target vertex is linked to the source vertex");
}

void frame(const Snap &A, const Snap &B, unsigned Curr, unsigned D,
           unsigned Succ, unsigned Mask) {
  ensures(B.Nodes.size() >= A.Nodes.size(), "no vertex is removed");
  const size_t P = A.Map[Curr][D];
  for (size_t I = 0; I < A.Nodes.size(); ++I) {
    auto &X = A.Nodes[I];
    auto &Y = B.Nodes[I];
    bool Target = false;
    for (unsigned Z = 0; Z < 4; ++Z)
      if ((Mask >> Z & 1) && A.Map[Succ][Z] == I)
        Target = true;
    ensures(X.Value == Y.Value, "a vertex keeps its fact");
    if (X.Pred != Y.Pred)
      ensures(Target && X.Pred == None && Y.Pred == P && P != None &&
                  Y.Source == stmt(Curr),
              "only a target without predecessor is connected, to the source");
    else
      ensures(X.Source == Y.Source || (Target && X.Pred == None),
              "a vertex keeps its statement");
    bool Prefix = Y.NB.size() >= X.NB.size();
    for (size_t K = 0; Prefix && K < X.NB.size(); ++K)
      Prefix = X.NB[K] == Y.NB[K];
    ensures(Prefix, "no neighbour is lost");
    ensures(Y.NB.size() <= X.NB.size() + (Target ? 1 : 0),
            "only targets get neighbours, one per source");
    for (size_t K = X.NB.size(); K < Y.NB.size(); ++K)
      ensures(Y.NB[K] >= A.Nodes.size() && B.Nodes[Y.NB[K]].Pred == P &&
                  B.Nodes[Y.NB[K]].Source == stmt(Curr),
              "a new neighbour stands for the recorded edge");
  }
  for (unsigned S = 0; S < 4; ++S)
    for (unsigned Z = 0; Z < 4; ++Z) {
      bool Fresh = (S == Succ && (Mask >> Z & 1)) || (S == Curr && Z == D);
      if (A.Map[S][Z] != None || !Fresh)
        ensures(A.Map[S][Z] == B.Map[S][Z],
                "vertices of other statements and facts stay");
    }
}

void save(ESG &G, unsigned Curr, unsigned D, unsigned Succ, unsigned Mask,
          ESGEdgeKind Kind) {
  std::vector<Fact> F;
  // in either order
  if ((Mask & (Mask - 1)) == 0 || pv::flip("order"))
    for (unsigned Z = 0; Z < 3; ++Z) {
      if (Mask >> Z & 1)
        F.push_back(Fact(Z));
    }
  else
    for (unsigned Z = 3; Z-- > 0;)
      if (Mask >> Z & 1)
        F.push_back(Fact(Z));
  G.saveEdges(stmt(Curr), Fact(D), stmt(Succ), F, Kind);
}

/// One propagation (Curr, D) -> (Succ, each fact of Mask) in a state with the
/// source vertex known or not and the (first) target vertex known or not.
void step(bool HaveP, bool HaveT, unsigned NumTargets, bool Zeros,
          unsigned First = 3) {
  for (auto &I : Insts)
    I.Parent = &Blocks[0];
  ESG G{Fact(Zero)};
  const unsigned Curr = 0;
  const unsigned Succ = pv::choose(2, "successor is the statement itself");
  const unsigned D = Zeros ? Zero : 1;
  if (First == 3)
    First = pv::choose(3, "target fact");
  unsigned Mask = 1U << First;
  if (NumTargets == 2)
    Mask |= 1U << ((First + 1 + pv::choose(2, "second target")) % 3);
  Insts[1].Parent = &Blocks[pv::choose(2, "successor's block")];
  const bool SrcInBlock = pv::flip("source of the source's vertex");
  Insts[2].Parent = &Blocks[SrcInBlock ? 0 : 1];
  ESGEdgeKind Kinds[] = {ESGEdgeKind::Normal, ESGEdgeKind::CallToRet,
                         ESGEdgeKind::Ret};
  ESGEdgeKind Kind = Kinds[pv::choose(NumTargets == 2 ? 2 : 3, "edge kind")];
  // the state
  size_t O = put(G, 3, stmt(3)), P = None, T = None;
  setMap(G, stmt(3), 3, O);
  if (HaveP) {
    P = put(G, D, stmt(2));
    setMap(G, stmt(Curr), D, P);
  }
  if (Succ == Curr && First == D) {
    if (HaveP != HaveT)
      pv_done_();
    T = P;
  } else if (HaveT) {
    if (HaveP && First == D && pv::flip("shared vertex"))
      T = P;
    else
      T = put(G, First, stmt(pv::choose(2, "source of the target") ? 3 : Curr));
    setMap(G, stmt(Succ), First, T);
  }
  if (T != None && T != P)
    G.NodeAdjOwner[T].PredecessorIdx = pickPred({P, O});
  // (two targets: a smaller choice of surroundings)
  const bool Few = NumTargets == 2;
  if (P != None)
    G.NodeAdjOwner[P].PredecessorIdx = pickPred({O, T == P ? None : T});
  if (!Few)
    G.NodeAdjOwner[O].PredecessorIdx = pickPred({T == P ? None : T, P});
  if (T != None && pv::flip("target has a neighbour")) {
    size_t N = put(G, First, stmt(3));
    G.NodeAdjOwner[N].PredecessorIdx =
        Few ? pickPred({P}) : pickPred({P, O, T == P ? None : T});
    G.NodeAdjOwner[T].Neighbors.push_back(N);
  }
  Snap A(G);
  pv::requires_(valid(A));
  save(G, Curr, D, Succ, Mask, Kind);
  Snap B(G);
  ensures(G.NodeDataOwner.size() == G.NodeAdjOwner.size(),
          "vertex data and adjacency stay in step");
  for (size_t I = 0; I < B.Nodes.size(); ++I)
    ensures(B.grounded(I), "walks over predecessors reach a root");
  ensures(valid(B), "vertices are found under their own fact");
  frame(A, B, Curr, D, Succ, Mask);
  for (unsigned Z = 0; Z < 3; ++Z)
    if (Mask >> Z & 1)
      checkEdge(A, B, Curr, D, Succ, Z, Kind);
  ensures(B.Map[Curr][D] != None, "the source vertex is found by lookup");
  if (!HaveP || NumTargets == 2)
    return;
  // recording the same propagation again changes nothing
  save(G, Curr, D, Succ, Mask, Kind);
  Snap C(G);
  ensures(C.Nodes.size() == B.Nodes.size(), "nothing is recorded twice");
  frame(B, C, Curr, D, Succ, 0);
}
} // namespace
#define C1(NAME, ...)                                                          \
  PVC_CONTRACT(NAME) { __VA_ARGS__; }
C1(seed, step(false, false, 1, false))
C1(seed_zero, step(false, false, 1, true))
C1(seed_two, step(false, false, 2, false))
C1(seed_two_zero, step(false, false, 2, true))
C1(seed_known_target, step(false, true, 1, false))
C1(seed_known_target_zero, step(false, true, 1, true))
C1(new_target, step(true, false, 1, false))
C1(new_target_zero, step(true, false, 1, true))
C1(new_targets, step(true, false, 2, false))
C1(new_targets_zero, step(true, false, 2, true))
C1(known_target_0, step(true, true, 1, false, 0))
C1(known_target_1, step(true, true, 1, false, 1))
C1(known_target_2, step(true, true, 1, false, 2))
C1(known_target_zero_0, step(true, true, 1, true, 0))
C1(known_target_zero_1, step(true, true, 1, true, 1))
C1(known_target_zero_2, step(true, true, 1, true, 2))
C1(known_targets_0, step(true, true, 2, false, 0))
C1(known_targets_1, step(true, true, 2, false, 1))
C1(known_targets_2, step(true, true, 2, false, 2))
C1(known_targets_zero_0, step(true, true, 2, true, 0))
C1(known_targets_zero_1, step(true, true, 2, true, 1))
C1(known_targets_zero_2, step(true, true, 2, true, 2))

/// The path-aware solver records what the solver's steps report.
using PASolver = PathAwareIDESolver<Dom>;
alignas(PASolver) unsigned char Raw[sizeof(PASolver)];
PVC_CONTRACT(solver_records) {
  for (auto &I : Insts)
    I.Parent = &Blocks[0];
  auto &S = *reinterpret_cast<PASolver *>(Raw); // only the graph is alive
  new (&S.ESG) ESG(Fact(Zero));
  ESGEdgeKind Kinds[] = {ESGEdgeKind::Normal, ESGEdgeKind::CallToRet};
  ESGEdgeKind K = Kinds[pv::choose(2, "kind")];
  unsigned D = pv::choose(2, "fact");
  S.PASolver::saveEdges(stmt(0), stmt(1), Fact(D), {Fact(0), Fact(2)}, K);
  const PASolver &CS = S;
  const ESG &G = CS.getExplicitESG();
  auto A = G.getNodeOrNull(stmt(0), Fact(D)), B = G.getNodeOrNull(stmt(1), 0),
       C = G.getNodeOrNull(stmt(1), 2);
  ensures(A && B && C && A.value().V == D && B.value().V == 0 &&
              C.value().V == 2,
          "source and targets are recorded");
  ensures(B.source() == stmt(0) && C.source() == stmt(0) && !B.predecessor() &&
              !C.predecessor(),
          "targets of a seed are roots reached from it");
  S.PASolver::saveEdges(stmt(1), stmt(3), Fact(0), {Fact(0), Fact(2)}, K);
  auto E = G.getNodeOrNull(stmt(3), 0), F = G.getNodeOrNull(stmt(3), 2);
  ensures(E && F && F.predecessor() == B && F.source() == stmt(1),
          "further targets are linked to their source");
  ensures(E.predecessor() ==
              (K == ESGEdgeKind::CallToRet ? ESG::NodeRef() : B),
          "the edge kind is passed on");
  ESG H = static_cast<PASolver &&>(S).getExplicitESG();
  ensures(H.getNodeOrNull(stmt(3), 2).predecessor().id() ==
              H.getNodeOrNull(stmt(1), 0).id(),
          "the graph can be moved out of the solver");
}

/// The views of a graph with three vertices.
PVC_CONTRACT(views) {
  ESG G{Fact(Zero)};
  ensures(G.size() == 0 && G.getZeroValue().V == Zero &&
              !G.getNodeOrNull(stmt(0), Fact(0)),
          "a new graph has no vertices");
  size_t A = put(G, 1, stmt(0)), B = put(G, 2, stmt(1)), C = put(G, 2, stmt(2)),
         D = put(G, 2, stmt(3));
  G.NodeAdjOwner[B].PredecessorIdx = A;
  G.NodeAdjOwner[B].Neighbors.push_back(C);
  G.NodeAdjOwner[B].Neighbors.push_back(D);
  setMap(G, stmt(2), 2, B);
  auto R = G.getNodeOrNull(stmt(2), Fact(2));
  ensures(bool(R) && R.id() == B && R.value().V == 2 && R.source() == stmt(1),
          "a vertex is found with its fact and statement");
  ensures(R.predecessor().id() == A && bool(R.predecessor()) &&
              !R.predecessor().predecessor() &&
              R.predecessor().predecessor() == nullptr && R != nullptr,
          "predecessors are walked to the root");
  ensures(R.hasNeighbors() && R.getNumNeighbors() == 2 &&
              !R.predecessor().hasNeighbors() &&
              R.predecessor().getNumNeighbors() == 0,
          "the number of neighbours is reported");
  unsigned N = 0;
  for (auto NB : R.neighbors()) {
    ensures(NB.id() == (N == 0 ? C : D) && NB == G.fromNodeId(NB.id()),
            "all neighbours are visited");
    ++N;
  }
  ensures(N == 2, "all neighbours are visited");
  N = 0;
  for (auto V : G.nodes())
    ensures(V == G.fromNodeId(N++), "all vertices are visited");
  ensures(N == G.size(), "all vertices are visited");
  N = 0;
  for (auto I = G.node_begin(), E = G.node_end(); I != E; ++I)
    ensures(*I == G.fromNodeId(N++), "all vertices are visited");
  ensures(N == 4, "all vertices are visited");
  ensures(!G.getNodeOrNull(stmt(2), Fact(1)) &&
              !G.getNodeOrNull(stmt(1), Fact(2)),
          "lookup needs statement and fact");
  ensures(G.fromNodeId(A) != G.fromNodeId(B) &&
              hash_value(G.fromNodeId(A)) == hash_value(R.predecessor()),
          "equality and hashing follow identity");
  ESG H(std::move(G));
  auto Q = H.getNodeOrNull(stmt(2), Fact(2));
  ensures(H.size() == 4 && Q.id() == B && Q.predecessor().id() == A,
          "moving keeps the graph");
}
