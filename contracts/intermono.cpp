// Contracts: the steps of include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
//
// Every step is run from an arbitrary table of facts: the source statement has
// facts in up to two arbitrary contexts, the target and the other predecessors
// have facts in any of them or not.  All flow functions are arbitrary.
#include "pv/pv.h"

#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/ControlFlow/CallGraphBase.h"
#include "phasar/ControlFlow/ICFGBase.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/Domain/AnalysisDomain.h"
#include "phasar/Pointer/AliasInfo.h"
namespace psr {
template <typename D> class IntraMonoProblem;
}
namespace {
struct Node {
  uint64_t V = 0;
  friend bool operator==(Node A, Node B) { return A.V == B.V; }
  friend bool operator!=(Node A, Node B) { return A.V != B.V; }
  friend bool operator<(Node A, Node B) { return A.V < B.V; }
  /// (the solver dereferences callers by "const auto *")
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Node) {
    return OS;
  }
};
using NodeP = const Node *;
struct Fn {
  uint64_t Id = 0;
  friend bool operator==(Fn A, Fn B) { return A.Id == B.Id; }
  friend bool operator!=(Fn A, Fn B) { return A.Id != B.Id; }
};
struct Bits {
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = Bits;
    using difference_type = ptrdiff_t;
    using pointer = const Bits *;
    using reference = const Bits &;
    const Bits *P;
  };
  uint64_t B = 0;
  iterator begin() const { return {this}; }
  iterator end() const { return {this}; }
  void insert(iterator F, iterator) { B |= F.P->B; }
  bool empty() const { return B == 0; }
};
} // namespace
namespace std {
template <> struct hash<Fn> {
  size_t operator()(Fn) const noexcept { return 0; }
};
/// which statements collide in the solver's tables is irrelevant
template <> struct hash<NodeP> {
  size_t operator()(NodeP) const noexcept { return 0; }
};
} // namespace std

#include "phasar/DataFlow/Mono/InterMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/InterMonoSolver.h"
#include "phasar/Utils/Printer.h"

using namespace psr;

namespace psr {
std::string NToString(NodeP) { return {}; }
} // namespace psr
namespace {
class ICF;
class DB;
class CGr;
} // namespace
namespace psr {
template <> struct CFGTraits<ICF> {
  using n_t = NodeP;
  using f_t = Fn;
};
template <> struct CGTraits<CGr> {
  using n_t = NodeP;
  using f_t = Fn;
};
template <> struct ProjectIRDBTraits<DB> {
  using n_t = NodeP;
  using f_t = Fn;
  using m_t = int;
  using g_t = int;
};
} // namespace psr
namespace {
using Nodes = llvm::SmallVector<NodeP, 4>;
using Fns = llvm::SmallVector<Fn, 2>;
using Edge = std::pair<NodeP, NodeP>;
/// Statements are numbered; which of the numbers a flow function or context
/// mentions is chosen by the contract.
constexpr unsigned NumNodes = 10;
Node Pool[NumNodes];
struct Info {
  bool Call = false, Exit = false;
  Fn F{};
  Nodes Succs, Preds;
  Fns Callees;
};
Info Inf[NumNodes];
Nodes Starts[4], Exits[4], Callers[4];
std::vector<Edge> Edges[4];
Info &info(NodeP N) { return Inf[N - Pool]; }

class CGr : public CallGraphBase<CGr> {
public:
  using n_t = NodeP;
  using f_t = Fn;
  llvm::ArrayRef<Fn> getCalleesOfCallAtImpl(NodeP N) const {
    return info(N).Callees;
  }
  llvm::ArrayRef<NodeP> getCallersOfImpl(Fn F) const { return Callers[F.Id]; }
};
CGr TheCG;
class ICF : public CFGBase<ICF>, public ICFGBase<ICF> {
public:
  using n_t = NodeP;
  using f_t = Fn;
  Fn getFunctionOfImpl(NodeP N) const { return info(N).F; }
  const Nodes &getPredsOfImpl(NodeP N) const { return info(N).Preds; }
  const Nodes &getSuccsOfImpl(NodeP N) const { return info(N).Succs; }
  const Nodes &getReturnSitesOfCallAtImpl(NodeP N) const {
    return info(N).Succs;
  }
  bool isCallSiteImpl(NodeP N) const { return info(N).Call; }
  bool isExitInstImpl(NodeP N) const { return info(N).Exit; }
  bool isBranchTargetImpl(NodeP A, NodeP B) const {
    for (NodeP X : info(B).Preds)
      if (X != A)
        return true;
    return pv::any<bool>("branch target");
  }
  const Nodes &getStartPointsOfImpl(Fn F) const { return Starts[F.Id]; }
  const Nodes &getExitPointsOfImpl(Fn F) const { return Exits[F.Id]; }
  std::vector<Edge> getAllControlFlowEdgesImpl(Fn F) const {
    return Edges[F.Id];
  }
  std::string getFunctionNameImpl(Fn) const { return {}; }
  const CGr &getCallGraphImpl() const { return TheCG; }
};
class DB : public ProjectIRDBBase<DB> {
public:
  bool isValidImpl() const { return true; }
  void dumpImpl() const {}
};
struct Dom : AnalysisDomain {
  using n_t = NodeP;
  using d_t = uint64_t;
  using f_t = Fn;
  using t_t = int;
  using v_t = uint64_t;
  using c_t = ICF;
  using i_t = ICF;
  using db_t = DB;
  using mono_container_t = Bits;
};
uint64_t AllTop;
struct Problem : InterMonoProblem<Dom> {
  using InterMonoProblem<Dom>::InterMonoProblem;
  bool Must = false;
  NodeP SeedAt = nullptr;
  uint64_t Seed = 0;
  Bits normalFlow(NodeP N, const Bits &In) override {
    return {pv_uf2("flow", N - Pool, In.B)};
  }
  Bits callFlow(NodeP CS, Fn F, const Bits &In) override {
    return {pv_uf3("call", CS - Pool, F.Id, In.B)};
  }
  Bits returnFlow(NodeP CS, Fn F, NodeP E, NodeP R, const Bits &In) override {
    // the solver's return site is not the one of the call site, in general
    return {pv_uf4("ret", CS - Pool, F.Id, E - Pool, In.B)};
  }
  Bits callToRetFlow(NodeP CS, NodeP R, llvm::ArrayRef<Fn> C,
                     const Bits &In) override {
    return {pv_uf4("ctr", CS - Pool, R - Pool, C.size(), In.B)};
  }
  Bits merge(const Bits &A, const Bits &B) override {
    return {Must ? A.B & B.B : A.B | B.B};
  }
  bool equal_to(const Bits &A, const Bits &B) override { return A.B == B.B; }
  Bits allTop() override { return {AllTop}; }
  std::unordered_map<NodeP, Bits> initialSeeds() override {
    std::unordered_map<NodeP, Bits> R;
    if (SeedAt)
      R[SeedAt] = Bits{Seed};
    return R;
  }
};
constexpr unsigned K = 2;
using Solver = InterMonoSolver<Dom, K>;
using Ctx = CallStringCTX<NodeP, K>;

ICF TheICF;
DB TheDB;
NodeP node(unsigned I) { return &Pool[I]; }
void reset() {
  for (Info &I : Inf)
    I = Info();
  for (unsigned I = 0; I < 4; ++I) {
    Starts[I].clear();
    Exits[I].clear();
    Callers[I].clear();
    Edges[I].clear();
  }
  AllTop = pv::any<uint64_t>("all-top");
}
/// Ghost copy of one statement's facts in one context.
uint64_t facts(Solver &S, NodeP N, const Ctx &C) {
  auto It = S.Analysis.find(N);
  if (It == S.Analysis.end())
    return 0;
  auto J = It->second.find(C);
  return J == It->second.end() ? 0 : J->second.B;
}
void mayHave(Solver &S, NodeP N, const Ctx &C, const char *Nm) {
  if (pv::flip("facts are known"))
    S.Analysis[N][C] = Bits{pv::any<uint64_t>(Nm)};
}
bool scheduled(Solver &S, NodeP A, NodeP B) {
  for (const Edge &E : S.Worklist)
    if (E.first == A && E.second == B)
      return true;
  return false;
}
Ctx ctx(std::initializer_list<unsigned> L) {
  Ctx C;
  for (unsigned I : L)
    C.push_back(node(I));
  return C;
}
/// Everything that has to be looked at again after D's facts changed.
void allScheduled(Solver &S, NodeP D) {
  for (NodeP X : info(D).Succs)
    pv::ensures(scheduled(S, D, X),
                "a changed point has its successors re-processed");
  if (info(D).Call)
    for (Fn F : info(D).Callees)
      for (NodeP X : Starts[F.Id])
        pv::ensures(scheduled(S, D, X),
                    "a changed call site has its callees re-processed");
  if (info(D).Exit)
    for (NodeP C : Callers[info(D).F.Id])
      for (NodeP X : info(C).Succs)
        pv::ensures(scheduled(S, D, X),
                    "a changed exit has its return sites re-processed");
}
// statements: 0 S, 1 D, 2 3 other predecessors, 4 5 successors of D,
// 6 start of a callee, 7 caller, 8 9 its return sites
enum { NS, ND, NP1, NP2, NX1, NX2, NStart, NCaller, NR1, NR2 };
void anyTarget(NodeP D) {
  Info &I = info(D);
  unsigned K = pv::choose(3, "successors");
  if (K > 0)
    I.Succs.push_back(node(NX1));
  if (K > 1)
    I.Succs.push_back(node(NX2));
  switch (pv::choose(3, "kind of target")) {
  case 1:
    I.Call = true;
    I.Callees.push_back(Fn{2});
    if (pv::flip("second callee")) {
      I.Callees.push_back(Fn{3});
      Starts[3].push_back(node(NP2));
    }
    Starts[2].push_back(node(NStart));
    break;
  case 2:
    I.Exit = true;
    Callers[I.F.Id].push_back(node(NCaller));
    info(node(NCaller)).Succs.push_back(node(NR1));
    if (pv::flip("second return site"))
      info(node(NCaller)).Succs.push_back(node(NR2));
    break;
  default:;
  }
}
} // namespace

namespace {
void normal(bool Wide) {
  pv_note_bounded_("at most two contexts, three predecessors");
  reset();
  bool Self = pv::flip("self loop");
  NodeP S = node(NS), D = Self ? S : node(ND);
  for (Info &I : Inf)
    I.F = Fn{1};
  unsigned Others = pv::choose(3, "other predecessors");
  bool SFirst = Others == 0 || pv::flip("position");
  if (SFirst)
    info(D).Preds.push_back(S);
  if (Others > 0)
    info(D).Preds.push_back(node(NP1));
  if (Others > 1)
    info(D).Preds.push_back(pv::flip("D itself") ? D : node(NP2));
  if (!SFirst)
    info(D).Preds.push_back(S);
  if (Wide)
    info(D).Succs.push_back(node(NX1));
  else
    anyTarget(D);
  for (NodeP X : info(D).Preds)
    if (X == D)
      info(D).Succs.push_back(D);
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  P.Must = pv::flip("merge is intersection");
  Solver Sl(P);
  Ctx C[2] = {ctx({}), ctx({NCaller})};
  unsigned N = Wide ? 2 : pv::choose(2, "contexts");
  uint64_t OldD[2], Want[2];
  for (unsigned I = 0; I < N; ++I) {
    Sl.Analysis[S][C[I]] = Bits{pv::any<uint64_t>("facts")};
  }
  for (unsigned I = 0; I < 2; ++I) {
    if (!Self)
      mayHave(Sl, D, C[I], "target facts");
    if (I < N && Others)
      mayHave(Sl, node(NP1), C[I], "other facts");
    if (I < N && Others > 1)
      mayHave(Sl, node(NP2), C[I], "other facts");
  }
  for (unsigned I = 0; I < 2; ++I) {
    OldD[I] = facts(Sl, D, C[I]);
    uint64_t M = 0;
    bool First = true;
    for (NodeP X : info(D).Preds) {
      uint64_t F = pv_uf2("flow", X - Pool, facts(Sl, X, C[I]));
      M = First ? F : P.Must ? M & F : M | F;
      First = false;
    }
    Want[I] = I < N ? M : OldD[I];
  }
  Sl.processNormal({S, D});
  for (unsigned I = 0; I < 2; ++I) {
    pv::ensures(facts(Sl, D, C[I]) == Want[I],
                "the facts are the merge over all predecessors, per context");
    if (facts(Sl, D, C[I]) != OldD[I])
      allScheduled(Sl, D);
  }
}
} // namespace
PVC_CONTRACT(process_normal) { normal(false); }
PVC_CONTRACT(process_normal_contexts) { normal(true); }
PVC_CONTRACT(process_call) {
  pv_note_bounded_("at most two contexts");
  reset();
  NodeP S = node(NS), D = node(ND);
  info(S).Call = true;
  info(S).F = Fn{1};
  info(D).F = Fn{2};
  info(S).Callees.push_back(Fn{2});
  Starts[2].push_back(D);
  info(node(NX1)).F = info(node(NX2)).F = Fn{2};
  anyTarget(D);
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  // contexts that stay different when the call is appended
  Ctx C[2] = {ctx({}), ctx({NCaller})};
  if (pv::flip("longer context"))
    C[1] = ctx({NR1, NCaller});
  unsigned N = pv::choose(3, "contexts");
  uint64_t OldS[2], OldD[2];
  Ctx CD[2];
  for (unsigned I = 0; I < 2; ++I) {
    CD[I] = C[I];
    CD[I].push_back(S);
    if (I < N)
      Sl.Analysis[S][C[I]] = Bits{pv::any<uint64_t>("facts")};
    mayHave(Sl, D, CD[I], "target facts");
    OldS[I] = facts(Sl, S, C[I]);
    OldD[I] = facts(Sl, D, CD[I]);
  }
  Sl.processCall({S, D});
  for (unsigned I = 0; I < 2; ++I) {
    uint64_t Now = facts(Sl, D, CD[I]);
    uint64_t Want = I < N ? pv_uf3("call", NS, 2, OldS[I]) : OldD[I];
    pv::ensures(Now == Want,
                "the callee's entry has the call flow of every context");
    if (Now != OldD[I])
      allScheduled(Sl, D);
  }
}
/// Contexts that differ only beyond the call-string limit.
PVC_CONTRACT(process_call_merged_contexts) {
  reset();
  NodeP S = node(NS), D = node(ND);
  info(S).Call = true;
  info(S).F = Fn{1};
  info(D).F = Fn{2};
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  Ctx C[2] = {ctx({NR1, NCaller}), ctx({NR2, NCaller})};
  uint64_t F[2];
  for (unsigned I = 0; I < 2; ++I) {
    F[I] = pv::any<uint64_t>("facts");
    Sl.Analysis[S][C[I]] = Bits{F[I]};
  }
  Sl.processCall({S, D});
  uint64_t Now = facts(Sl, D, ctx({NCaller, NS}));
  for (unsigned I = 0; I < 2; ++I) {
    uint64_t Out = pv_uf3("call", NS, 2, F[I]);
    pv::ensures((Now & Out) == Out,
                "contexts that fall together have their facts joined");
  }
}
PVC_CONTRACT(process_call_to_return) {
  pv_note_bounded_("at most two contexts");
  reset();
  NodeP S = node(NS), D = node(ND);
  info(S).Call = true;
  info(S).F = info(D).F = Fn{1};
  unsigned NC = pv::choose(3, "callees");
  for (unsigned I = 0; I < NC; ++I)
    info(S).Callees.push_back(Fn{2 + I});
  anyTarget(D);
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  Ctx C[2] = {ctx({}), ctx({NCaller})};
  unsigned N = pv::choose(3, "contexts");
  uint64_t OldS[2], OldD[2];
  for (unsigned I = 0; I < 2; ++I) {
    if (I < N)
      Sl.Analysis[S][C[I]] = Bits{pv::any<uint64_t>("facts")};
    mayHave(Sl, D, C[I], "return-site facts");
    OldS[I] = facts(Sl, S, C[I]);
    OldD[I] = facts(Sl, D, C[I]);
  }
  Sl.processCall({S, D});
  for (unsigned I = 0; I < 2; ++I) {
    uint64_t Now = facts(Sl, D, C[I]);
    uint64_t Out = I < N ? pv_uf4("ctr", NS, ND, NC, OldS[I]) : OldD[I];
    pv::ensures((Now & Out) == Out,
                "the return site has the call-to-return flow of every context");
    pv::ensures((Now & ~Out & ~OldD[I]) == 0,
                "the return site has no other facts than known ones and the "
                "call-to-return flow");
    if (Now != OldD[I])
      allScheduled(Sl, D);
  }
}
/// Facts that came back from a callee are not forgotten.
PVC_CONTRACT(call_to_return_keeps_returned_facts) {
  reset();
  NodeP S = node(NS), D = node(ND);
  info(S).Call = true;
  info(S).F = info(D).F = Fn{1};
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  Sl.Analysis[S][ctx({})] = Bits{pv::any<uint64_t>("facts")};
  uint64_t Old = pv::any<uint64_t>("return-site facts");
  Sl.Analysis[D][ctx({})] = Bits{Old};
  Sl.processCall({S, D});
  pv::ensures((facts(Sl, D, ctx({})) & Old) == Old,
              "facts returned by a callee are kept");
}
namespace {
void atExit(bool Any) {
  pv_note_bounded_("at most two callers with two return sites");
  reset();
  NodeP S = node(NS), Caller = node(NCaller), Caller2 = node(NP1);
  info(S).Exit = true;
  info(S).F = Fn{2};
  info(Caller).Call = info(Caller2).Call = true;
  info(Caller).F = info(Caller2).F = Fn{1};
  info(Caller).Succs.push_back(node(NR1));
  if (pv::flip("second return site"))
    info(Caller).Succs.push_back(node(NR2));
  info(Caller2).Succs.push_back(node(NX1));
  Callers[2].push_back(Caller);
  bool Two = Any || pv::flip("second caller");
  if (Two)
    Callers[2].push_back(Caller2);
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  bool Known = !Any && (Two || pv::flip("calling context is known"));
  Ctx In = Known ? ctx({NCaller}) : ctx({}), Out = ctx({});
  if (Known && pv::flip("outer context")) {
    In = ctx({NX2, NCaller});
    Out = ctx({NX2});
  }
  uint64_t F = pv::any<uint64_t>("facts");
  Sl.Analysis[S][In] = Bits{F};
  uint64_t Old[3];
  const unsigned Sites[3] = {NR1, NR2, NX1};
  for (unsigned I = 0; I < 3; ++I) {
    mayHave(Sl, node(Sites[I]), Out, "return-site facts");
    Old[I] = facts(Sl, node(Sites[I]), Out);
  }
  Sl.processExit({S, node(NR1)});
  for (unsigned I = 0; I < 3; ++I) {
    uint64_t Now = facts(Sl, node(Sites[I]), Out);
    pv::ensures((Now & Old[I]) == Old[I], "return sites lose no facts");
    bool Of1 = I == 0 || (I == 1 && info(Caller).Succs.size() == 2);
    bool Of2 = I == 2 && Two && !Known;
    uint64_t R = Of1   ? pv_uf4("ret", NCaller, 2, NS, F)
                 : Of2 ? pv_uf4("ret", NP1, 2, NS, F)
                       : 0;
    pv::ensures((Now & R) == R, "return sites have the return flow of the call");
  }
}
} // namespace
PVC_CONTRACT(process_exit) { atExit(false); }
PVC_CONTRACT(process_exit_of_unknown_caller) { atExit(true); }
PVC_CONTRACT(process_exit_schedules) {
  reset();
  NodeP S = node(NS), Caller = node(NCaller);
  info(S).Exit = true;
  info(S).F = Fn{2};
  info(Caller).Call = true;
  info(Caller).F = Fn{1};
  info(Caller).Succs.push_back(node(NR1));
  info(node(NR1)).Succs.push_back(node(NX1));
  Callers[2].push_back(Caller);
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  Sl.Analysis[S][ctx({})] = Bits{pv::any<uint64_t>("facts")};
  mayHave(Sl, node(NR1), ctx({}), "return-site facts");
  uint64_t Old = facts(Sl, node(NR1), ctx({}));
  Sl.processExit({S, node(NR1)});
  if (facts(Sl, node(NR1), ctx({})) != Old)
    allScheduled(Sl, node(NR1));
}
/// A call site's callees become part of the analysis.
PVC_CONTRACT(add_callees) {
  pv_note_bounded_("at most two callees");
  reset();
  NodeP S = node(NS);
  info(S).Call = true;
  info(S).F = Fn{1};
  unsigned N = pv::choose(3, "callees");
  for (unsigned I = 0; I < N; ++I)
    info(S).Callees.push_back(Fn{2 + I});
  info(S).Succs.push_back(node(ND));
  Starts[2].push_back(node(NP1));
  Exits[2].push_back(node(NX1));
  Starts[3].push_back(node(NP2));
  Exits[3].push_back(node(NX2));
  Edges[2].emplace_back(node(NP1), node(NX1));
  Edges[3].emplace_back(node(NP2), node(NX2));
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  Solver Sl(P);
  bool Was[2];
  for (unsigned I = 0; I < 2; ++I)
    if ((Was[I] = pv::flip("already analysed")))
      Sl.AddedFunctions.insert(Fn{2 + I});
  Sl.addCalleesToWorklist({S, node(ND)});
  for (unsigned I = 0; I < N; ++I)
    if (!Was[I]) {
      NodeP Start = I ? node(NP2) : node(NP1), Ex = I ? node(NX2) : node(NX1);
      pv::ensures(scheduled(Sl, S, Start), "the call edge is scheduled");
      pv::ensures(scheduled(Sl, Start, Ex), "the callee's edges are scheduled");
      pv::ensures(scheduled(Sl, Ex, node(ND)), "the return edge is scheduled");
      pv::ensures(facts(Sl, Start, ctx({})) == AllTop &&
                      facts(Sl, Ex, ctx({})) == AllTop,
                  "the callee's statements have initial facts");
    }
}
PVC_CONTRACT(initial_state) {
  reset();
  for (Info &I : Inf)
    I.F = Fn{1};
  unsigned N = pv::choose(3, "edges");
  const unsigned Path[3] = {NS, ND, NX1};
  for (unsigned I = 0; I < N; ++I)
    Edges[1].emplace_back(node(Path[I]), node(Path[I + 1]));
  Problem P(&TheDB, nullptr, &TheICF, nullptr);
  unsigned At = pv::choose(3, "seed");
  P.SeedAt = node(Path[At]);
  P.Seed = pv::any<uint64_t>("seed facts");
  Solver Sl(P);
  Sl.initialize();
  for (unsigned I = 0; I < N; ++I)
    pv::ensures(scheduled(Sl, node(Path[I]), node(Path[I + 1])),
                "every edge is scheduled");
  for (unsigned I = 0; I < 3; ++I) {
    uint64_t F = facts(Sl, node(Path[I]), ctx({}));
    uint64_t Want = (N && I <= N ? AllTop : 0) | (I == At ? P.Seed : 0);
    pv::ensures(F == Want, "initial facts: all-top and the seeds");
  }
  uint64_t Sum = 0;
  for (auto &[C, F] : Sl.Analysis[node(ND)])
    Sum |= F.B;
  pv::ensures(Sl.getResultsAt(node(ND)).B == Sum,
              "results are the union over all contexts");
}
