// Contracts: include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h
//
// The worklist loop is proved for graphs of any size and any number of
// iterations with the invariant
//   for every node d: the equation of d holds or an edge into d is scheduled,
// stated at one arbitrary node Obs.  std::deque and std::unordered_map are
// replaced by specifications for the solver's node type: the worklist is an
// arbitrary finite collection of edges that yields any of its elements, the
// map an arbitrary total map.  Bounded: at most three predecessors per node.
#include "pv/pv.h"

#include "llvm/Support/raw_ostream.h"

#include <deque>
#include <unordered_map>
#include <vector>

namespace {
struct Node {
  uint64_t V = 0;
  friend bool operator==(Node A, Node B) { return A.V == B.V; }
  friend bool operator!=(Node A, Node B) { return A.V != B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Node) {
    return OS;
  }
};
using Edge = std::pair<Node, Node>;

/// An arbitrary finite set, seen through 64 of its possible elements.
struct Bits {
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = Bits;
    using difference_type = ptrdiff_t;
    using pointer = const Bits *;
    using reference = const Bits &;
    const Bits *P;
    bool End;
  };
  uint64_t B = 0;
  iterator begin() const { return {this, false}; }
  iterator end() const { return {this, true}; }
  void insert(iterator F, iterator) { B |= F.P->B; }
  bool empty() const { return B == 0; }
};

void loopHead();
void firstHead();
enum Mode { Establish, StepObs, StepOther, Exit };
void onPush(Edge E);
Edge pick();

/// How the loop sees its worklist.
struct WLState {
  bool Into = false;   // an edge into Obs is scheduled
  bool Some = false;   // something is known to be scheduled
  bool Pops = false;   // an iteration has begun
  bool Picked = false; // front() was asked
  bool SaidEmpty = false;
  bool Began = false; // the loop has been reached
  Mode Mode = Exit;
  Edge Cur{};
} W;
} // namespace
namespace std {
template <> struct hash<Node> {
  size_t operator()(Node) const noexcept { return 0; }
};
/// Specification of the worklist.
template <> class deque<Edge, allocator<Edge>> {
public:
  using value_type = Edge;
  using size_type = size_t;
  using reference = Edge &;
  using const_reference = const Edge &;
  struct iterator {};
  using const_iterator = iterator;
  iterator begin() const { return {}; }
  iterator end() const { return {}; }
  bool empty() const { return size() == 0; }
  size_t size() const {
    firstHead();
    if (W.Into)
      W.Some = true;
    if (!W.Some && (W.Mode != Exit || pv::flip("something is scheduled")))
      W.Some = true; // the rest of the worklist is arbitrary
    if (!W.Some) {
      W.SaidEmpty = true;
      return 0;
    }
    size_t N = pv::any<size_t>("size of the worklist");
    pv::assume(N >= 1);
    return N;
  }
  Edge &front() { return get(); }
  Edge &back() { return get(); }
  void pop_front() { pop(); }
  void pop_back() { pop(); }
  void push_back(const Edge &E) { onPush(E); }
  void push_front(const Edge &E) { onPush(E); }
  template <typename... T> Edge &emplace_back(T &&...A) {
    onPush(Edge(std::forward<T>(A)...));
    return W.Cur;
  }
  template <typename... T> Edge &emplace_front(T &&...A) {
    return emplace_back(std::forward<T>(A)...);
  }
  template <typename It> void insert(iterator, It B, It E) {
    for (; B != E; ++B)
      onPush(*B);
  }
  void insert(iterator, const Edge &E) { onPush(E); }

private:
  Edge &get() {
    if (!W.Picked) {
      pv::ensures(W.Some, "nothing is taken from an empty worklist");
      loopHead();
      W.Picked = true;
      W.Cur = pick();
    }
    return W.Cur;
  }
  void pop() {
    get();
    W.Picked = false;
    W.Some = false; // what remains is arbitrary
    W.Into = W.Into && true;
  }
};
/// Specification of the map from nodes to facts.
template <>
class unordered_map<Node, Bits, hash<Node>, equal_to<Node>,
                    allocator<pair<const Node, Bits>>> {
public:
  using key_type = Node;
  using mapped_type = Bits;
  using value_type = pair<const Node, Bits>;
  struct Slot {
    Node K;
    Bits V;
    bool Present;
  };
  struct iterator {
    const unordered_map *M;
    unsigned I;
    struct Ref {
      const Node &first;
      Bits &second;
    };
    value_type &operator*() const {
      return *reinterpret_cast<value_type *>(&M->E[I]);
    }
    value_type *operator->() const { return &**this; }
    iterator &operator++() {
      ++I;
      skip();
      return *this;
    }
    void skip() {
      while (I < M->Num && !M->E[I].Present)
        ++I;
    }
    friend bool operator==(iterator A, iterator B) { return A.I == B.I; }
    friend bool operator!=(iterator A, iterator B) { return A.I != B.I; }
  };
  using const_iterator = iterator;
  mutable Slot E[16];
  mutable unsigned Num = 0;
  bool Havoc = false;
  Slot &slot(Node N) const {
    for (unsigned I = 0; I < Num; ++I)
      if (E[I].K == N)
        return E[I];
    Slot &S = E[Num++];
    S.K = N;
    S.V = Bits{Havoc ? pv::any<uint64_t>("facts") : 0};
    S.Present = Havoc;
    return S;
  }
  Bits &operator[](Node N) {
    Slot &S = slot(N);
    S.Present = true;
    return S.V;
  }
  Bits &at(Node N) { return (*this)[N]; }
  const Bits &at(Node N) const { return slot(N).V; }
  template <typename... T> pair<iterator, bool> try_emplace(Node N, T &&...A) {
    Slot &S = slot(N);
    bool New = !S.Present;
    if (New)
      S.V = Bits{std::forward<T>(A)...};
    S.Present = true;
    return {iterator{this, unsigned(&S - E)}, New};
  }
  pair<iterator, bool> insert(const pair<Node, Bits> &P) {
    return try_emplace(P.first, P.second);
  }
  template <typename... T> pair<iterator, bool> emplace(T &&...A) {
    return insert(pair<Node, Bits>(std::forward<T>(A)...));
  }
  template <typename B>
  pair<iterator, bool> insert_or_assign(Node N, const B &V) {
    bool New = !slot(N).Present;
    (*this)[N] = V;
    return {find(N), New};
  }
  iterator find(Node N) const {
    Slot &S = slot(N);
    return S.Present ? iterator{this, unsigned(&S - E)} : end();
  }
  size_t count(Node N) const { return slot(N).Present; }
  iterator begin() const {
    iterator I{this, 0};
    I.skip();
    return I;
  }
  iterator end() const { return {this, Num}; }
  void reserve(size_t) {}
};
} // namespace std

#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/Domain/AnalysisDomain.h"
#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/Pointer/AliasInfo.h"

using namespace psr;

namespace {
struct Fn {
  unsigned Id = 0;
};
class Graph;
class DB;
} // namespace
namespace psr {
template <> struct CFGTraits<Graph> {
  using n_t = Node;
  using f_t = Fn;
};
template <> struct ProjectIRDBTraits<DB> {
  using n_t = Node;
  using f_t = Fn;
  using m_t = int;
  using g_t = int;
};
} // namespace psr
namespace {
using Nodes = llvm::SmallVector<Node, 4>;
constexpr unsigned MaxPreds = 3;

/// The control-flow graph: predecessors are chosen the first time they are
/// asked for, successors are what the predecessors say and one other node.
class Graph : public CFGBase<Graph> {
public:
  using n_t = Node;
  using f_t = Fn;
  struct Memo {
    Node N;
    Nodes Preds;
  };
  mutable Memo M[8];
  mutable unsigned Num = 0;
  mutable std::pair<Node, Node> Others[8];
  mutable unsigned NumOthers = 0;
  mutable unsigned Extra = MaxPreds;

  const Nodes &preds(Node N, bool Root = false) const {
    for (unsigned I = 0; I < Num; ++I)
      if (M[I].N == N)
        return M[I].Preds;
    Memo &X = M[Num++];
    X.N = N;
    // every edge that was handed out before
    for (unsigned I = 0; I < NumOthers; ++I)
      if (Others[I].second == N)
        X.Preds.push_back(Others[I].first);
    unsigned K = pv::choose(Extra + 1, "predecessors");
    for (unsigned I = 0; I < K; ++I)
      X.Preds.push_back(Node{pv::any<uint64_t>("predecessor")});
    return X.Preds;
  }
  bool isEdge(Node A, Node B) const {
    for (unsigned I = 0; I < NumOthers; ++I)
      if (Others[I].first == A && Others[I].second == B)
        return true;
    for (Node P : preds(B))
      if (P == A)
        return true;
    return false;
  }
  Nodes getPredsOfImpl(Node N) const { return preds(N); }
  Nodes getSuccsOfImpl(Node N) const {
    Nodes R;
    bool First = W.Mode == StepObs && pv::flip("other successor first");
    auto Other = [&] {
      if (W.Mode != StepObs || !pv::flip("another successor"))
        return;
      Node O{pv::any<uint64_t>("other successor")};
      for (unsigned I = 0; I < Num; ++I)
        pv::assume(M[I].N != O);
      Others[NumOthers++] = {N, O};
      R.push_back(O);
    };
    if (First)
      Other();
    for (unsigned I = 0; I < Num; ++I)
      for (Node P : M[I].Preds)
        if (P == N) {
          R.push_back(M[I].N);
          break;
        }
    if (!First)
      Other();
    return R;
  }
  bool isBranchTargetImpl(Node A, Node B) const {
    // merge points are branch targets of all of their predecessors
    const Nodes &P = preds(B);
    for (Node X : P)
      if (X != A)
        return true;
    return pv::any<bool>("branch target");
  }
  std::vector<Edge> getAllControlFlowEdgesImpl(Fn F) const;
  std::vector<Node> getAllInstructionsOfImpl(Fn F) const;
};

Node Obs;           // the observed node
unsigned ObsIn;     // 1, 2: the entry function it is in; 0: none
Graph *G;
Node OtherNode[3];
uint64_t AllTop;

std::vector<Edge> Graph::getAllControlFlowEdgesImpl(Fn F) const {
  std::vector<Edge> R;
  if (F.Id == ObsIn)
    for (Node P : preds(Obs))
      R.emplace_back(P, Obs);
  else
    R.emplace_back(OtherNode[F.Id], OtherNode[F.Id]);
  return R;
}
std::vector<Node> Graph::getAllInstructionsOfImpl(Fn F) const {
  std::vector<Node> R;
  R.push_back(OtherNode[F.Id]);
  if (F.Id == ObsIn) {
    for (Node P : preds(Obs))
      R.push_back(P);
    R.push_back(Obs);
  }
  return R;
}
class DB : public ProjectIRDBBase<DB> {
public:
  bool isValidImpl() const { return true; }
  void dumpImpl() const {}
  Fn getFunctionDefinitionImpl(llvm::StringRef N) const {
    return {N == "first" ? 1u : 2u};
  }
};
struct Dom : AnalysisDomain {
  using n_t = Node;
  using d_t = uint64_t;
  using f_t = Fn;
  using t_t = int;
  using v_t = uint64_t;
  using c_t = Graph;
  using i_t = Graph;
  using db_t = DB;
  using mono_container_t = Bits;
};
using FactMap = std::unordered_map<Node, Bits>;
/// An arbitrary problem: any transfer functions, union or intersection.
struct Problem : IntraMonoProblem<Dom> {
  using IntraMonoProblem<Dom>::IntraMonoProblem;
  bool Must = false;
  FactMap Seeds;
  Bits normalFlow(Node N, const Bits &In) override {
    return {pv_uf2("flow", N.V, In.B)};
  }
  Bits merge(const Bits &A, const Bits &B) override {
    return {Must ? A.B & B.B : A.B | B.B};
  }
  bool equal_to(const Bits &A, const Bits &B) override { return A.B == B.B; }
  Bits allTop() override { return {AllTop}; }
  FactMap initialSeeds() override { return Seeds; }
};
struct Solver : IntraMonoSolver<Dom> {
  using IntraMonoSolver<Dom>::IntraMonoSolver;
};
Solver *Slv;
Problem *Prb;
uint64_t InitObs;
uint64_t InitFacts;

/// The equation of the observed node.
bool equation(const FactMap &A) {
  const Nodes &P = G->preds(Obs);
  if (P.empty())
    return A.at(Obs).B == InitObs;
  uint64_t R = 0;
  bool First = true;
  for (Node X : P) {
    uint64_t F = pv_uf2("flow", X.V, A.at(X).B);
    R = First ? F : Prb->Must ? R & F : R | F;
    First = false;
  }
  return A.at(Obs).B == R;
}
bool invariant(const FactMap &A) { return W.Into || equation(A); }

/// The first time the loop looks at its worklist.
bool ExitFromHavoc;
void firstHead() {
  if (W.Began)
    return;
  W.Began = true;
  if (W.Mode == Establish) {
    if (ObsIn) {
      pv::ensures(invariant(Slv->Analysis),
                  "every point's equation holds or one of its edges is scheduled "
                  "(initially)");
      pv::ensures(Slv->Analysis.count(Obs), "every point has facts");
    }
    pv_done_();
  }
  // an arbitrary state that satisfies the invariant
  Slv->Analysis.Num = 0;
  Slv->Analysis.Havoc = true;
  W.Some = false;
  W.Into = W.Mode == StepObs ||
           pv::flip("an edge into the observed node is scheduled");
  if (!W.Into)
    pv::assume(equation(Slv->Analysis));
  InitFacts = Slv->Analysis.at(Obs).B;
}
/// When the next edge is asked for, with something scheduled.
void loopHead() {
  firstHead();
  if (W.Mode == Exit)
    pv_die_();
  if (W.Pops) {
    pv::ensures(invariant(Slv->Analysis),
                "every point's equation holds or one of its edges is scheduled "
                "(preserved)");
    pv_done_();
  }
  W.Pops = true;
}
Edge pick() {
  if (W.Mode == StepObs) {
    const Nodes &P = G->preds(Obs);
    if (P.empty())
      pv_die_();
    Node S = P[P.size() > 1 ? pv::choose(P.size(), "which") : 0];
    W.Into = pv::flip("another one is scheduled");
    return {S, Obs};
  }
  Node D{pv::any<uint64_t>("target")};
  pv::assume(D != Obs);
  const Nodes &P = G->preds(D);
  if (P.empty())
    pv_die_();
  return {P[P.size() > 1 ? pv::choose(P.size(), "which") : 0], D};
}
void onPush(Edge E) {
  pv::ensures(!W.Pops || G->isEdge(E.first, E.second),
              "only control-flow edges are scheduled");
  W.Some = true;
  W.SaidEmpty = false;
  if (E.second == Obs)
    W.Into = true;
}
} // namespace

namespace {
void run(enum Mode M) {
  pv_note_bounded_("nodes with at most three predecessors");
  pv_note_invariant_("IntraMonoSolver::solve: equation(d) or an edge into d is "
                     "in the worklist, for all d");
  W = WLState();
  W.Mode = M;
  Graph Gr;
  DB Db;
  G = &Gr;
  Obs = {pv::any<uint64_t>("observed node")};
  AllTop = pv::any<uint64_t>("all-top");
  std::vector<std::string> Entries;
  if (M == Establish) {
    unsigned NumEntries = pv::choose(3, "entry points");
    if (NumEntries > 0)
      Entries.push_back("first");
    if (NumEntries > 1)
      Entries.push_back("second");
    ObsIn = pv::choose(NumEntries + 1, "observed function");
  } else {
    Entries.push_back("first");
    ObsIn = 1;
  }
  if (M == StepOther)
    Gr.Extra = 2;
  Gr.preds(Obs);
  for (unsigned I = 1; I < 3; ++I) {
    OtherNode[I] = {pv::any<uint64_t>("other node")};
    pv::assume(OtherNode[I] != Obs);
  }
  Problem Pr(&Db, nullptr, &Gr, nullptr, Entries);
  Prb = &Pr;
  Pr.Must = pv::flip("merge is intersection");
  InitObs = AllTop;
  if (M != Establish)
    InitObs = pv::any<uint64_t>("initial facts");
  else if (ObsIn && pv::flip("seed")) {
    uint64_t S = pv::any<uint64_t>("seed facts");
    Pr.Seeds[Obs] = Bits{S};
    InitObs |= S;
  }
  Solver S(Pr);
  Slv = &S;
  static_cast<IntraMonoSolver<Dom> &>(S).solve();
  pv::ensures(W.SaidEmpty && !W.Some && !W.Into,
              "the solver stops only when nothing is scheduled");
  pv::ensures(S.getResultsAt(Obs).B == pv_uf2("flow", Obs.V, InitFacts),
              "the result is the transferred fixpoint");
}
} // namespace
PVC_CONTRACT(solve_establishes_invariant) { run(Establish); }
PVC_CONTRACT(solve_step_into_observed) { run(StepObs); }
PVC_CONTRACT(solve_step_elsewhere) { run(StepOther); }
PVC_CONTRACT(solve_result) { run(Exit); }
