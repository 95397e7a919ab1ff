// Contracts: the steps of include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
// (phase I: propagation, phase II: values), FlowEdgeFunctionCache.h,
// InitialSeeds.h and the solver result views.
//
// The problem is arbitrary: every flow function returns, per fact, an arbitrary
// set of facts; edge functions, their composition and their join are
// uninterpreted; the control flow and call relations are arbitrary finite ones.
// Facts and statements are only ever compared and hashed by the solver, so small
// pools of them with all coincidences stand for arbitrary ones.  A moved-from
// fact is a different fact.
#include "pv/pv.h"

#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/ControlFlow/ICFGBase.h"
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/Domain/AnalysisDomain.h"
#include "phasar/Utils/JoinLattice.h"

#include "llvm/IR/Instructions.h"
#include "llvm/Support/raw_ostream.h"

namespace {
constexpr unsigned Poison = 29;
struct Fact {
  unsigned V = Poison - 1;
  Fact() = default;
  Fact(unsigned X) : V(X) {}
  Fact(const Fact &) = default;
  Fact(Fact &&O) noexcept : V(O.V) { O.V = Poison; }
  Fact &operator=(const Fact &) = default;
  Fact &operator=(Fact &&O) noexcept {
    V = O.V;
    if (this != &O)
      O.V = Poison;
    return *this;
  }
  ~Fact() {}
  friend bool operator==(const Fact &A, const Fact &B) { return A.V == B.V; }
  friend bool operator!=(const Fact &A, const Fact &B) { return A.V != B.V; }
  friend bool operator<(const Fact &A, const Fact &B) { return A.V < B.V; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Fact &) {
    return OS;
  }
};
/// A value: an element of the free semilattice with top = no atoms.  A default
/// constructed one is not top.
struct Val {
  uint64_t B = 0x5a5a;
  friend bool operator==(Val A, Val C) { return A.B == C.B; }
  friend bool operator!=(Val A, Val C) { return A.B != C.B; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Val) {
    return OS;
  }
};
using Stmt = uint32_t;
struct Fn {
  unsigned Id = 0;
  Fn() = default;
  Fn(unsigned I) : Id(I) {}
  operator unsigned() const { return Id; }
  struct Name {
    llvm::StringRef getName() const { return {}; }
  };
  const Name *operator->() const { return nullptr; } // only for printing
};
} // namespace
namespace psr {
template <> struct JoinLatticeTraits<Val> {
  static Val top() { return Val{0}; }
  static Val bottom() { return Val{~0ULL}; }
  static Val join(Val A, Val B) { return Val{A.B | B.B}; }
};
} // namespace psr
namespace std {
template <> struct hash<Fact> {
  size_t operator()(const Fact &F) const noexcept { return F.V; }
};
} // namespace std

#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"

using namespace psr;
using pv::ensures;

namespace {
class ICF;
class DB;
} // namespace
namespace psr {
template <> struct CFGTraits<ICF> {
  using n_t = Stmt;
  using f_t = Fn;
};
template <> struct ProjectIRDBTraits<DB> {
  using n_t = Stmt;
  using f_t = Fn;
  using m_t = int;
  using g_t = int;
};
} // namespace psr

namespace {
using Stmts = std::vector<Stmt>;
using Fns = llvm::SmallVector<Fn, 4>;
constexpr unsigned NN = 12, NF = 4;
struct Info {
  bool Call = false, Exit = false, Start = false;
  Fn F = 0;
  Stmts Succs, RetSites;
  Fns Callees;
};
Info Inf[NN];
Stmts Starts[NF], Callers[NF], CallsIn[NF], NonCallStart;

class ICF {
public:
  using n_t = Stmt;
  using f_t = Fn;
  Fn getFunctionOf(Stmt N) const { return Inf[N].F; }
  std::string getFunctionName(Fn) const { return {}; }
  std::string getStatementId(Stmt) const { return {}; }
  const Stmts &getSuccsOf(Stmt N) const { return Inf[N].Succs; }
  const Stmts &getReturnSitesOfCallAt(Stmt N) const { return Inf[N].RetSites; }
  const Fns &getCalleesOfCallAt(Stmt N) const { return Inf[N].Callees; }
  Stmts getStartPointsOf(Fn F) const { return Starts[F]; }
  const Stmts &getCallersOf(Fn F) const { return Callers[F]; }
  const Stmts &getCallsFromWithin(Fn F) const { return CallsIn[F]; }
  Stmts allNonCallStartNodes() const { return NonCallStart; }
  bool isCallSite(Stmt N) const { return Inf[N].Call; }
  bool isExitInst(Stmt N) const { return Inf[N].Exit; }
  bool isStartPoint(Stmt N) const { return Inf[N].Start; }
};
struct Dom {
  using n_t = Stmt;
  using d_t = Fact;
  using f_t = Fn;
  using t_t = int;
  using v_t = int;
  using l_t = Val;
  using i_t = ICF;
  using c_t = ICF;
  using db_t = DB;
  using mono_container_t = std::set<Fact>;
};
using EF = EdgeFunction<Val>;
using Facts = std::set<Fact>;

/// An arbitrary edge function.
struct GEF {
  using l_t = Val;
  uint64_t Id;
  Val computeTarget(Val X) const { return {pv_uf2("apply", Id, X.B)}; }
  // (the solver must go through the problem's extend and combine)
  static EF compose(EdgeFunctionRef<GEF> T, const EF &) {
    ensures(false, "composition goes through extend()");
    return T;
  }
  static EF join(EdgeFunctionRef<GEF> T, const EF &) {
    ensures(false, "join goes through combine()");
    return T;
  }
  friend bool operator==(GEF A, GEF B) { return A.Id == B.Id; }
};
constexpr uint64_t IdId = 1, TopId = 2;
uint64_t idOf(const EF &E) {
  if (const auto *G = llvm::dyn_cast<GEF>(E))
    return G->Id;
  ensures(llvm::isa<EdgeIdentity<Val>>(E), "no made-up edge functions");
  return IdId;
}
uint64_t ext(uint64_t A, uint64_t B) { return pv_uf2("extend", A, B); }
uint64_t comb(uint64_t A, uint64_t B) { return pv_uf2("combine", A, B); }
uint64_t app(uint64_t Id, uint64_t V) { return pv_uf2("apply", Id, V); }

/// Flow functions: an arbitrary map fact -> set of facts per kind and key.
enum Kind { Normal = 1, Call, Ret, CTR, Sum };
struct Key {
  unsigned K = 0, A = 0, B = 0, C = 0, D = 0;
  friend bool operator==(const Key &X, const Key &Y) {
    return X.K == Y.K && X.A == Y.A && X.B == Y.B && X.C == Y.C && X.D == Y.D;
  }
};
struct Choice {
  Key K;
  unsigned F;
  unsigned Mask;
};
Choice Chosen[64];
unsigned NumChosen = 0;
unsigned NumFacts = 2; // facts mentioned by flow functions
/// the facts a flow function yields for F
unsigned flow(const Key &K, unsigned F) {
  for (unsigned I = 0; I < NumChosen; ++I)
    if (Chosen[I].K == K && Chosen[I].F == F)
      return Chosen[I].Mask;
  Choice &C = Chosen[NumChosen++];
  C.K = K;
  C.F = F;
  C.Mask = pv::choose(1U << NumFacts, "flow function");
  return C.Mask;
}
Facts factsOf(unsigned Mask) {
  Facts R;
  for (unsigned I = 0; I < NumFacts; ++I)
    if (Mask >> I & 1)
      R.insert(Fact(I));
  return R;
}
struct GFF : FlowFunction<Fact, Facts> {
  Key K;
  GFF(Key K) : K(K) {}
  Facts computeTargets(Fact F) override { return factsOf(flow(K, F.V)); }
};
Fns WantCallees;
unsigned SideEffects = 0;
bool SummaryFor[NF];
struct Prob : IDETabulationProblem<Dom, Facts> {
  Prob()
      : IDETabulationProblem(reinterpret_cast<ProjectIRDBBase<DB> *>(64), {},
                             Fact(0)) {}
  InitialSeeds<Stmt, Fact, Val> S;
  InitialSeeds<Stmt, Fact, Val> initialSeeds() override { return S; }
  EF allTopFunction() override { return GEF{TopId}; }
  EF extend(const EF &L, const EF &R) override {
    return GEF{ext(idOf(L), idOf(R))};
  }
  EF combine(const EF &L, const EF &R) override {
    return GEF{comb(idOf(L), idOf(R))};
  }
  static FlowFunctionPtrType ff(Key K) { return std::make_shared<GFF>(K); }
  static void callees(llvm::ArrayRef<Fn> C) {
    bool Ok = C.size() == WantCallees.size();
    for (size_t I = 0; Ok && I < C.size(); ++I)
      Ok = C[I] == WantCallees[I];
    ensures(Ok, "call-to-return functions see the callees of the call");
  }
  FlowFunctionPtrType getNormalFlowFunction(Stmt A, Stmt B) override {
    return ff({Normal, A, B});
  }
  FlowFunctionPtrType getCallFlowFunction(Stmt A, Fn F) override {
    return ff({Call, A, F});
  }
  FlowFunctionPtrType getRetFlowFunction(Stmt A, Fn F, Stmt E,
                                         Stmt R) override {
    return ff({Ret, A, F, E, R});
  }
  FlowFunctionPtrType
  getCallToRetFlowFunction(Stmt A, Stmt R, llvm::ArrayRef<Fn> C) override {
    callees(C);
    return ff({CTR, A, R});
  }
  FlowFunctionPtrType getSummaryFlowFunction(Stmt A, Fn F) override {
    return SummaryFor[F] ? ff({Sum, A, F}) : nullptr;
  }
  void applyUnbalancedRetFlowFunctionSideEffects(Fn F, Stmt E,
                                                 Fact D) override {
    SideEffects = 1 + F * 1000 + E * 30 + D.V;
  }
  static uint64_t normalId(Stmt A, unsigned X, Stmt B, unsigned Y) {
    return pv_uf4("normal", A, X, B, Y);
  }
  static uint64_t callId(Stmt A, unsigned X, Fn F, unsigned Y) {
    return pv_uf4("call", A, X, F, Y);
  }
  static uint64_t retId(Stmt A, Fn F, Stmt E, unsigned X, Stmt R, unsigned Y) {
    return pv_uf5("ret", A, F, E * 100 + R, X, Y);
  }
  static uint64_t ctrId(Stmt A, unsigned X, Stmt B, unsigned Y) {
    return pv_uf4("ctr", A, X, B, Y);
  }
  static uint64_t sumId(Stmt A, unsigned X, Stmt B, unsigned Y) {
    return pv_uf4("sum", A, X, B, Y);
  }
  EF getNormalEdgeFunction(Stmt A, Fact X, Stmt B, Fact Y) override {
    return GEF{normalId(A, X.V, B, Y.V)};
  }
  EF getCallEdgeFunction(Stmt A, Fact X, Fn F, Fact Y) override {
    return GEF{callId(A, X.V, F, Y.V)};
  }
  EF getReturnEdgeFunction(Stmt A, Fn F, Stmt E, Fact X, Stmt R,
                           Fact Y) override {
    return GEF{retId(A, F, E, X.V, R, Y.V)};
  }
  EF getCallToRetEdgeFunction(Stmt A, Fact X, Stmt B, Fact Y,
                              llvm::ArrayRef<Fn> C) override {
    callees(C);
    return GEF{ctrId(A, X.V, B, Y.V)};
  }
  EF getSummaryEdgeFunction(Stmt A, Fact X, Stmt B, Fact Y) override {
    return GEF{sumId(A, X.V, B, Y.V)};
  }
};
/// Observes which step is taken for an edge.
unsigned Took = 0;
struct Steps {
  unsigned N = 0, C = 0, X = 0;
  unsigned D1 = 99, S = 99, D2 = 99;
};
Steps Seen;
void note(const PathEdge<Stmt, Fact> &E) {
  Seen.D1 = E.factAtSource().V;
  Seen.S = E.getTarget();
  Seen.D2 = E.factAtTarget().V;
}
/// The edges of the exploded super-graph that the steps report.
struct Saved {
  Stmt A, B;
  unsigned D, Mask;
  ESGEdgeKind K;
  friend bool operator==(const Saved &X, const Saved &Y) {
    return X.A == Y.A && X.B == Y.B && X.D == Y.D && X.Mask == Y.Mask &&
           X.K == Y.K;
  }
};
Saved Sv[32];
unsigned NumSv = 0;
struct Solver : IDESolver<Dom, Facts> {
  using Base = IDESolver<Dom, Facts>;
  using Base::Base;
  void saveEdges(Stmt A, Stmt B, Fact D, const Facts &R,
                 ESGEdgeKind K) override {
    unsigned M = 0;
    for (const Fact &F : R)
      M |= 1U << F.V;
    if (M)
      Sv[NumSv++] = {A, B, D.V, M, K};
    Base::saveEdges(A, B, D, R, K);
  }
};
struct StepSolver : Solver {
  using Solver::Solver;
  void processNormalFlow(PathEdge<Stmt, Fact> E) override {
    note(E);
    ++Seen.N;
  }
  void processCall(const PathEdge<Stmt, Fact> E) override {
    note(E);
    ++Seen.C;
  }
  void processExit(const PathEdge<Stmt, Fact> E) override {
    note(E);
    ++Seen.X;
  }
};
const ICF TheICF{};
void setup(Prob &P, bool Zero = false) {
  P.getIFDSIDESolverConfig().setAutoAddZero(Zero);
}

/// The propagations a step must produce.
struct Exp {
  unsigned D1;
  Stmt N;
  unsigned D2;
  uint64_t Id;
};
struct Expected {
  Exp E[48];
  unsigned Num = 0;
  void add(unsigned D1, Stmt N, unsigned D2, uint64_t Id) {
    E[Num++] = Exp{D1, N, D2, Id};
  }
  Saved Edges[32];
  unsigned NumEdges = 0;
  /// an edge of the exploded super-graph per fact of Mask
  void edge(Stmt A, unsigned D, Stmt B, unsigned Mask, ESGEdgeKind K) {
    if (Mask)
      Edges[NumEdges++] = Saved{A, B, D, Mask, K};
  }
};
/// the work list holds, from index From on, exactly the expected entries
void checkWL(Solver &S, const Expected &X, size_t From = 0) {
  for (unsigned I = 0; I < X.NumEdges; ++I) {
    bool Found = false;
    for (unsigned J = 0; J < NumSv; ++J)
      Found |= Sv[J] == X.Edges[I];
    ensures(Found, "every propagation is reported to the super-graph");
  }
  for (unsigned J = 0; J < NumSv; ++J) {
    bool Found = false;
    for (unsigned I = 0; I < X.NumEdges; ++I)
      Found |= Sv[J] == X.Edges[I];
    ensures(Found, "nothing else is reported to the super-graph");
  }
  auto &WL = S.WorkList;
  ensures(WL.size() >= From, "nothing is dropped from the work list");
  for (unsigned J = 0; J < X.Num; ++J) {
    bool Found = false;
    for (size_t I = From; I < WL.size(); ++I)
      if (WL[I].first.factAtSource().V == X.E[J].D1 &&
          WL[I].first.getTarget() == X.E[J].N &&
          WL[I].first.factAtTarget().V == X.E[J].D2)
        Found = pv_or_(Found, idOf(WL[I].second) == X.E[J].Id);
    ensures(Found, "every propagation the step owes is scheduled");
  }
  for (size_t I = From; I < WL.size(); ++I) {
    bool Found = false;
    for (unsigned J = 0; J < X.Num; ++J)
      if (WL[I].first.factAtSource().V == X.E[J].D1 &&
          WL[I].first.getTarget() == X.E[J].N &&
          WL[I].first.factAtTarget().V == X.E[J].D2)
        Found = pv_or_(Found, idOf(WL[I].second) == X.E[J].Id);
    ensures(Found, "nothing else is scheduled");
  }
}
/// Jump function (D1, N, D2); TopId if there is none.
uint64_t jump(Solver &S, unsigned D1, Stmt N, unsigned D2) {
  auto R = S.JumpFn->forwardLookup(Fact(D1), N);
  if (R)
    for (auto &E : R->get())
      if (E.first.V == D2)
        return idOf(E.second);
  return TopId;
}
uint64_t revJump(Solver &S, unsigned D1, Stmt N, unsigned D2) {
  auto R = S.JumpFn->reverseLookup(N, Fact(D2));
  if (R)
    for (auto &E : R->get())
      if (E.first.V == D1)
        return idOf(E.second);
  return TopId;
}
uint64_t anyFn(const char *Nm) { return pv::any<uint64_t>(Nm); }

//===-- phase I: one step ---------------------------------------------------//
/// processNormalFlow, with NS successors
void normal(unsigned NS, bool Zero, unsigned Facts) {
  NumFacts = Facts;
  Prob P;
  setup(P, Zero);
  Solver S(P, &TheICF);
  const Stmt N = 1;
  for (unsigned I = 0; I < NS; ++I)
    Inf[N].Succs.push_back(2 + I);
  // a loop on itself
  if (NS && pv::flip("loops"))
    Inf[N].Succs.back() = N;
  unsigned D1 = pv::choose(2, "d1"), D2 = pv::choose(2, "d2");
  uint64_t F = TopId;
  if (pv::flip("has jump function")) {
    F = anyFn("f");
    S.JumpFn->addFunction(Fact(D1), N, Fact(D2), GEF{F});
  }
  // other jump functions at the same statement
  S.JumpFn->addFunction(Fact(D1), N, Fact(5), GEF{anyFn("g")});
  S.JumpFn->addFunction(Fact(6), N, Fact(D2), GEF{anyFn("h")});
  S.WorkList.emplace_back(PathEdge<Stmt, Fact>(Fact(7), 9, Fact(8)), GEF{7});
  S.processNormalFlow(PathEdge<Stmt, Fact>(Fact(D1), N, Fact(D2)));
  Expected X;
  for (Stmt M : Inf[N].Succs) {
    unsigned Mask = flow({Normal, N, M}, D2);
    if (Zero && D2 == 0)
      Mask |= 1;
    X.edge(N, D2, M, Mask, ESGEdgeKind::Normal);
    for (unsigned D3 = 0; D3 < NumFacts; ++D3)
      if (Mask >> D3 & 1)
        X.add(D1, M, D3, ext(F, Prob::normalId(N, D2, M, D3)));
  }
  checkWL(S, X, 1);
  ensures(S.WorkList[0].first.getTarget() == 9, "other entries stay");
  ensures(jump(S, D1, N, D2) == F, "the step leaves jump functions alone");
}

/// An arbitrary recorded state around call statement N in function 0, facts
/// below NumFacts, callees chosen by the caller.
uint64_t recorded(Solver &S, unsigned D1, Stmt N, unsigned D2) {
  uint64_t F = anyFn("f");
  S.JumpFn->addFunction(Fact(D1), N, Fact(D2), GEF{F});
  return F;
}
struct Summary {
  Stmt SP;
  unsigned D3;
  Stmt EP;
  unsigned D4;
  uint64_t Id;
};
/// NC callees with NSP start points each, NRS return sites, NSum end summaries
void call(unsigned NC, unsigned NSP, unsigned NRS, unsigned NSum, bool Zero,
          bool Special = true, unsigned FixD = 2) {
  Prob P;
  setup(P, Zero);
  P.getIFDSIDESolverConfig().setRecordEdges(true);
  Solver S(P, &TheICF);
  const Stmt N = 1;
  Inf[N].Call = true;
  for (unsigned I = 0; I < NRS; ++I)
    Inf[N].RetSites.push_back(2 + I);
  for (unsigned I = 0; I < NC; ++I) {
    Inf[N].Callees.push_back(1 + I);
    SummaryFor[1 + I] = Special && pv::flip("special summary");
    for (unsigned J = 0; J < NSP; ++J)
      Starts[1 + I].push_back(4 + 2 * I + J);
  }
  WantCallees = Inf[N].Callees;
  unsigned D1 = FixD < 2 ? 1 - FixD : pv::choose(2, "d1"),
           D2 = FixD < 2 ? FixD : pv::choose(2, "d2");
  uint64_t F = recorded(S, D1, N, D2);
  Summary Sums[2];
  for (unsigned I = 0; I < NSum; ++I) {
    Summary &Q = Sums[I];
    Q = {4, (unsigned)pv::choose(2, "summary fact"), Stmt(8 + I),
         (unsigned)pv::choose(2, "exit fact"), anyFn("summary")};
    S.EndsummaryTab.get(Q.SP, Fact(Q.D3)).insert(Q.EP, Fact(Q.D4), GEF{Q.Id});
  }
  // an older incoming edge of the same start point
  S.IncomingTab.get(4, Fact(0))[10].insert(Fact(1));
  S.processCall(PathEdge<Stmt, Fact>(Fact(D1), N, Fact(D2)));
  Expected X;
  bool Info = false;
  for (Fn C : Inf[N].Callees) {
    Info |= SummaryFor[C] || !Starts[C].empty();
    if (SummaryFor[C]) {
      unsigned Mask = flow({Sum, N, C}, D2);
      for (Stmt R : Inf[N].RetSites) {
        X.edge(N, D2, R, Mask, ESGEdgeKind::Summary);
        for (unsigned D3 = 0; D3 < NumFacts; ++D3)
          if (Mask >> D3 & 1)
            X.add(D1, R, D3, ext(F, Prob::sumId(N, D2, R, D3)));
      }
      continue;
    }
    unsigned Mask = flow({Call, N, C}, D2);
    if (Zero && D2 == 0)
      Mask |= 1;
    for (Stmt SP : Starts[C])
      X.edge(N, D2, SP, Mask, ESGEdgeKind::Call);
    for (Stmt SP : Starts[C])
      for (unsigned D3 = 0; D3 < NumFacts; ++D3) {
        bool Inc = false;
        auto IncAt = S.IncomingTab.get(SP, Fact(D3));
        if (auto It = IncAt.find(N); It != IncAt.end())
          Inc = It->second.count(Fact(D2)) && It->second.size() == 1;
        ensures(Inc == bool(Mask >> D3 & 1),
                "exactly the facts passed to the callee are recorded as "
                "incoming");
        if (!(Mask >> D3 & 1))
          continue;
        X.add(D3, SP, D3, IdId);
        for (unsigned I = 0; I < NSum; ++I) {
          if (Sums[I].SP != SP || Sums[I].D3 != D3)
            continue;
          Summary &Q = Sums[I];
          for (Stmt R : Inf[N].RetSites) {
            unsigned M5 = flow({Ret, N, C, Q.EP, R}, Q.D4);
            if (Zero && Q.D4 == 0)
              M5 |= 1;
            X.edge(Q.EP, Q.D4, R, M5, ESGEdgeKind::Ret);
            for (unsigned D5 = 0; D5 < NumFacts; ++D5)
              if (M5 >> D5 & 1)
                X.add(D1, R, D5,
                      ext(F, ext(ext(Prob::callId(N, D2, C, D3), Q.Id),
                                 Prob::retId(N, C, Q.EP, Q.D4, R, D5))));
          }
        }
      }
  }
  for (Stmt R : Inf[N].RetSites) {
    unsigned Mask = flow({CTR, N, R}, D2);
    if (Zero && D2 == 0)
      Mask |= 1;
    X.edge(N, D2, R, Mask,
           Info ? ESGEdgeKind::CallToRet : ESGEdgeKind::SkipUnknownFn);
    for (unsigned D3 = 0; D3 < NumFacts; ++D3) {
      if (Mask >> D3 & 1)
        X.add(D1, R, D3, ext(F, Prob::ctrId(N, D2, R, D3)));
    }
  }
  checkWL(S, X);
  ensures(S.IncomingTab.get(4, Fact(0))[10].count(Fact(1)),
          "recorded incoming edges stay");
  for (unsigned I = 0; I < NSum; ++I)
    ensures(idOf(S.EndsummaryTab.get(Sums[I].SP, Fact(Sums[I].D3))
                     .get(Sums[I].EP, Fact(Sums[I].D4))) == Sums[I].Id,
            "end summaries stay");
}
/// processExit: NSP start points, NInc callers, each with any set of facts
void exitStep(unsigned NSP, unsigned NInc, unsigned NRS, unsigned NJump,
              bool Zero, unsigned FixD = 2) {
  Prob P;
  setup(P, Zero);
  Solver S(P, &TheICF);
  const Stmt N = 1;
  const Fn C = 1;
  Inf[N].Exit = true;
  Inf[N].F = C;
  for (unsigned J = 0; J < NSP; ++J)
    Starts[C].push_back(4 + J);
  unsigned D1 = FixD < 2 ? 1 - FixD : pv::choose(2, "d1"),
           D2 = FixD < 2 ? FixD : pv::choose(2, "d2");
  uint64_t F = recorded(S, D1, N, D2);
  // the callers; recorded alike for all start points (processCall's contract)
  unsigned Inc[2] = {0, 0};
  struct J {
    unsigned D3;
    Stmt N;
    unsigned D4;
    uint64_t Id;
  } Js[4];
  unsigned NJ = 0;
  for (unsigned I = 0; I < NInc; ++I) {
    Stmt Cs = 6 + I;
    for (unsigned K = 0; K < NRS; ++K)
      Inf[Cs].RetSites.push_back(8 + 2 * I + K);
    Inc[I] = pv::choose(3, "incoming facts") + 1;
    for (Stmt SP : Starts[C])
      S.IncomingTab.get(SP, Fact(D1))[Cs] = factsOf(Inc[I]);
    for (unsigned K = 0; K < NJump; ++K) {
      Js[NJ] = {(unsigned)(2 * K + pv::choose(2, "source fact of a caller")),
                Cs, (unsigned)pv::choose(2, "fact at the call"), anyFn("j")};
      S.JumpFn->addFunction(Fact(Js[NJ].D3), Cs, Fact(Js[NJ].D4),
                            GEF{Js[NJ].Id});
      ++NJ;
    }
  }
  // callers of another fact are not concerned
  if (NSP)
    S.IncomingTab.get(4, Fact(D1 ^ 1))[3].insert(Fact(0));
  Inf[3].RetSites.push_back(2);
  S.processExit(PathEdge<Stmt, Fact>(Fact(D1), N, Fact(D2)));
  Expected X;
  for (unsigned I = 0; I < NInc; ++I) {
    if (!NSP)
      continue;
    Stmt Cs = 6 + I;
    for (Stmt R : Inf[Cs].RetSites) {
      unsigned M5 = flow({Ret, Cs, C, N, R}, D2);
      if (Zero && D2 == 0)
        M5 |= 1;
      X.edge(N, D2, R, M5, ESGEdgeKind::Ret);
      for (unsigned D5 = 0; D5 < NumFacts; ++D5)
        for (unsigned K = 0; K < NJ; ++K)
          if ((M5 >> D5 & 1) && Js[K].N == Cs && (Inc[I] >> Js[K].D4 & 1))
            if (Js[K].Id != TopId)
              X.add(Js[K].D3, R, D5,
                    ext(Js[K].Id,
                        ext(ext(Prob::callId(Cs, Js[K].D4, C, D1), F),
                            Prob::retId(Cs, C, N, D2, R, D5))));
    }
  }
  checkWL(S, X);
  for (Stmt SP : Starts[C])
    ensures(idOf(S.EndsummaryTab.get(SP, Fact(D1)).get(N, Fact(D2))) == F,
            "the end summary is recorded for every start point");
}
/// returns past the seeds
void unbalanced(unsigned NCallers, unsigned NRS) {
  Prob P;
  setup(P, false);
  bool Follow = pv::flip("follow returns past seeds");
  P.getIFDSIDESolverConfig().setFollowReturnsPastSeeds(Follow);
  Solver S(P, &TheICF);
  const Stmt N = 1;
  const Fn C = 1;
  Inf[N].Exit = true;
  Inf[N].F = C;
  Starts[C].push_back(4);
  unsigned D1 = pv::choose(2, "d1"), D2 = pv::choose(2, "d2");
  uint64_t F = recorded(S, D1, N, D2);
  for (unsigned I = 0; I < NCallers; ++I) {
    Callers[C].push_back(6 + I);
    for (unsigned K = 0; K < NRS; ++K)
      Inf[6 + I].RetSites.push_back(8 + 2 * I + K);
  }
  bool Incoming = pv::flip("has an incoming edge");
  if (Incoming)
    S.IncomingTab.get(4, Fact(D1))[3].insert(Fact(0));
  S.processExit(PathEdge<Stmt, Fact>(Fact(D1), N, Fact(D2)));
  Expected X;
  for (unsigned I = 0; I < NCallers; ++I)
    for (Stmt R : Inf[6 + I].RetSites) {
      bool Any = false;
      if (Follow && !Incoming) {
        unsigned M5 = flow({Ret, 6 + I, C, N, R}, D2);
        X.edge(N, D2, R, M5, ESGEdgeKind::Ret);
        for (unsigned D5 = 0; D5 < NumFacts; ++D5)
          if (M5 >> D5 & 1) {
            Any = true;
            X.add(0, R, D5, ext(F, Prob::retId(6 + I, C, N, D2, R, D5)));
          }
      }
      ensures(S.UnbalancedRetSites.count(R) == Any,
              "exactly the return sites reached past the seeds are "
              "registered");
    }
  checkWL(S, X);
  ensures((SideEffects == 1 + C * 1000 + N * 30 + D2) ==
              (Follow && !Incoming && NCallers == 0),
          "side effects of returns without caller are applied");
}
void noteTask(Solver::Base *, PathEdge<Stmt, Fact> E) {
  note(E);
  ++Took;
}
/// one element of the work list
void next(bool Have) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  pv::replace(&Solver::Base::pathEdgeProcessingTask, &noteTask);
  Stmt N = 1;
  unsigned D1 = pv::choose(2, "d1"), D2 = pv::choose(2, "d2");
  uint64_t Old = Have ? recorded(S, D1, N, D2) : TopId;
  // a function that agrees in all but one component
  unsigned OD1 = D1, OD2 = D2;
  Stmt ON = N;
  switch (pv::choose(3, "other component")) {
  case 0:
    OD1 = 5;
    break;
  case 1:
    ON = 2;
    break;
  default:
    OD2 = 5;
  }
  uint64_t O = recorded(S, OD1, ON, OD2);
  uint64_t F = anyFn("new");
  bool More = pv::flip("more work");
  if (More)
    S.WorkList.emplace_back(PathEdge<Stmt, Fact>(Fact(7), 9, Fact(8)), GEF{7});
  S.WorkList.emplace_back(PathEdge<Stmt, Fact>(Fact(D1), N, Fact(D2)), GEF{F});
  bool R = S.doNext();
  uint64_t New = comb(Old, F);
  if (New != Old) {
    ensures(Took == 1 && Seen.D1 == D1 && Seen.S == N && Seen.D2 == D2,
            "a changed jump function is processed");
  } else {
    ensures(Took == 0, "an unchanged jump function is not processed");
  }
  ensures(jump(S, D1, N, D2) == New && revJump(S, D1, N, D2) == New,
          "the new jump function is the join of old and new");
  ensures(jump(S, OD1, ON, OD2) == O && revJump(S, OD1, ON, OD2) == O,
          "other jump functions stay");
  ensures(R == More && S.WorkList.size() == (More ? 1 : 0),
          "the processed element, and only that, leaves the work list");
  if (More)
    ensures(S.WorkList[0].first.getTarget() == 9, "other work stays");
}
} // namespace

#define C1(NAME, ...)                                                          \
  PVC_CONTRACT(NAME) { __VA_ARGS__; }
C1(normal_0, normal(0, false, 2))
C1(normal_1, normal(1, false, 3))
C1(normal_1_zero, normal(1, true, 2))
C1(normal_2, normal(2, false, 2))
C1(normal_2_zero, normal(2, true, 2))
C1(normal_3, normal(3, false, 1))
C1(call_no_callee, call(0, 0, 2, 0, false))
C1(call_declaration, call(1, 0, 1, 0, false))
C1(call_plain, call(1, 1, 2, 0, false))
C1(call_one_summary, call(1, 1, 1, 1, false))
C1(call_summaries_0, call(1, 1, 1, 2, false, false, 0))
C1(call_summaries_1, call(1, 1, 1, 2, false, false, 1))
C1(call_two_return_sites_0, call(1, 1, 2, 1, false, false, 0))
C1(call_two_return_sites_1, call(1, 1, 2, 1, false, false, 1))
C1(call_two_starts, call(1, 2, 1, 1, false))
C1(call_two_callees, call(2, 1, 1, 1, false))
C1(call_zero, call(1, 1, 1, 1, true))
C1(exit_plain, exitStep(1, 1, 1, 1, false))
C1(exit_no_caller, exitStep(1, 0, 1, 0, false))
C1(exit_two_callers_0, exitStep(1, 2, 1, 1, false, 0))
C1(exit_two_callers_1, exitStep(1, 2, 1, 1, false, 1))
C1(exit_two_return_sites, exitStep(1, 1, 2, 1, false))
C1(exit_two_jumps, exitStep(1, 1, 1, 2, false))
C1(exit_two_starts, exitStep(2, 1, 1, 1, false))
C1(exit_zero, exitStep(1, 1, 1, 1, true))
C1(unbalanced_none, unbalanced(0, 0))
C1(unbalanced_one, unbalanced(1, 2))
C1(unbalanced_two, unbalanced(2, 1))
C1(next_known, next(true))
C1(next_unknown, next(false))

/// which steps an edge gets
PVC_CONTRACT(dispatch) {
  Prob P;
  setup(P);
  StepSolver S(P, &TheICF);
  const Stmt N = 1;
  Inf[N].Call = pv::flip("call site");
  Inf[N].Exit = pv::flip("exit");
  if (pv::flip("has successors"))
    Inf[N].Succs.push_back(2);
  S.pathEdgeProcessingTask(PathEdge<Stmt, Fact>(Fact(3), N, Fact(4)));
  ensures(Seen.C == Inf[N].Call, "call sites are processed as calls");
  ensures(Seen.X == (!Inf[N].Call && Inf[N].Exit),
          "exits are processed as exits");
  ensures(Seen.N == (!Inf[N].Call && !Inf[N].Succs.empty()),
          "statements with successors are processed as normal statements");
  if (Seen.N + Seen.C + Seen.X)
    ensures(Seen.D1 == 3 && Seen.S == N && Seen.D2 == 4,
            "the edge is passed on as it is");
}

//===-- seeds, work list loop -----------------------------------------------//
PVC_CONTRACT(initial_seeds) {
  Prob P;
  setup(P);
  uint64_t V[2][2];
  unsigned Mask[2];
  bool Any = false;
  for (unsigned I = 0; I < 2; ++I) {
    Mask[I] = pv::choose(4, "seeds of a statement");
    for (unsigned J = 0; J < 2; ++J) {
      V[I][J] = pv::any<uint64_t>("seed value");
      if (Mask[I] >> J & 1)
        P.S.addSeed(1 + I, Fact(J), Val{V[I][J]});
    }
    Any |= Mask[I] != 0;
  }
  Solver S(P, &TheICF);
  bool R = S.doInitialize();
  ensures(R == Any, "there is work iff there are seeds");
  Expected X;
  for (unsigned I = 0; I < 2; ++I) {
    ensures(S.Seeds.containsInitialSeedsFor(1 + I) == (Mask[I] != 0),
            "only seed statements are seeded");
    if (!Mask[I])
      continue;
    const auto &M = S.Seeds.getSeeds().at(1 + I);
    for (unsigned J = 0; J < 2; ++J) {
      bool Seeded = Mask[I] >> J & 1;
      if (Seeded || J == 0) {
        X.add(J, 1 + I, J, IdId);
        ensures(M.count(Fact(J)) &&
                    M.at(Fact(J)).B == (Seeded ? V[I][J] : ~0ULL),
                "seeds keep their value; zero is added with bottom");
      } else {
        ensures(!M.count(Fact(J)), "no other seeds");
      }
    }
    ensures(S.Seeds.countInitialSeeds(1 + I) ==
                1 + (unsigned)(Mask[I] >> 1 & 1),
            "number of seeds of a statement");
  }
  checkWL(S, X);
}
PVC_CONTRACT(seeds_container) {
  // a later seed of the same fact replaces the value
  InitialSeeds<Stmt, Fact, Val> S;
  ensures(S.empty() && S.countInitialSeeds() == 0, "no seeds at first");
  Stmt N[2];
  unsigned F[2];
  uint64_t V[2];
  for (unsigned I = 0; I < 2; ++I) {
    N[I] = 1 + pv::choose(2, "statement");
    F[I] = pv::choose(2, "fact");
    V[I] = pv::any<uint64_t>("value");
    S.addSeed(N[I], Fact(F[I]), Val{V[I]});
  }
  bool Same = N[0] == N[1] && F[0] == F[1];
  ensures(S.countInitialSeeds() == (Same ? 1 : 2), "number of seeds");
  ensures(!S.empty() && S.getSeeds().at(N[1]).at(Fact(F[1])).B == V[1],
          "a seed is found again");
  if (!Same)
    ensures(S.getSeeds().at(N[0]).at(Fact(F[0])).B == V[0],
            "earlier seeds stay");
  ensures(S.countInitialSeeds(N[0]) == (Same || N[0] != N[1] ? 1 : 2) &&
              S.countInitialSeeds(3) == 0 && S.containsInitialSeedsFor(N[0]) &&
              !S.containsInitialSeedsFor(3),
          "seeds per statement");
  InitialSeeds<Stmt, Fact, Val> T(S.getSeeds());
  ensures(T.countInitialSeeds() == S.countInitialSeeds(), "copy of seeds");
  InitialSeeds<Stmt, Fact, BinaryDomain> B(
      std::map<Stmt, std::set<Fact>>{{1, {Fact(0), Fact(1)}}});
  B.addSeed(2, Fact(1));
  ensures(B.countInitialSeeds() == 3 &&
              B.getSeeds().at(1).at(Fact(1)) == BinaryDomain::BOTTOM &&
              B.getSeeds().at(2).at(Fact(1)) == BinaryDomain::BOTTOM,
          "IFDS seeds hold");
}
namespace {
unsigned Calls = 0, Rem = 0, Fin = 0, Inits = 0;
bool Busy = false;
bool initStub(Solver::Base *) {
  ++Inits;
  Busy = Rem != 0;
  return Busy;
}
bool nextStub(Solver::Base *) {
  ensures(Busy && Inits == 1, "a step is only taken while there is work");
  ++Calls;
  --Rem;
  Busy = Rem != 0;
  return Busy;
}
void finStub(Solver::Base *) {
  ensures(!Busy, "values are computed after the fixpoint");
  ++Fin;
}
} // namespace
/// solve() = initialize, all steps, finalize
PVC_CONTRACT(solve_loop) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  pv::replace(&Solver::Base::doInitialize, &initStub);
  pv::replace(&Solver::Base::doNext, &nextStub);
  pv::replace(&Solver::Base::finalizeInternal, &finStub);
  unsigned K = Rem = pv::choose(4, "steps");
  switch (pv::choose(4, "how")) {
  case 0:
    (void)S.solve();
    break;
  case 1: {
    bool More = S.initialize();
    ensures(More == (K != 0), "initialize tells whether there is work");
    while (More)
      More = S.next();
    (void)S.finalize();
    break;
  }
  case 2: {
    unsigned M = 1 + pv::choose(3, "steps at once");
    bool More = S.initialize();
    while (More) {
      unsigned Before = Calls;
      More = S.nextN(M);
      ensures(!More || Calls == Before + M, "nextN takes that many steps");
    }
    (void)S.finalize();
    break;
  }
  default: {
    bool More = S.initialize();
    if (More)
      More = S.nextN(1);
    if (More)
      (void)S.continueSolving();
    else
      (void)S.finalize();
  }
  }
  ensures(Calls == K && Fin == 1 && Inits == 1,
          "all steps are taken, then values are computed once");
}

//===-- phase II ------------------------------------------------------------//
namespace {
bool Visited[NN][3];
unsigned NumVisited = 0;
bool StartCalled = false, CallCalled = false;
void visitStub(Solver::Base *, std::pair<Stmt, Fact> P) {
  Visited[P.first][P.second.V] = true;
  ++NumVisited;
}
void startStub(Solver::Base *, const std::pair<Stmt, Fact> P, Stmt N) {
  StartCalled = P.first == 1 && P.second.V == 1 && N == 1;
}
void callStub(Solver::Base *, const std::pair<Stmt, Fact> P, Stmt N) {
  CallCalled = P.first == 1 && P.second.V == 1 && N == 1;
}
uint64_t put(Solver &S, Stmt N, unsigned D) {
  if (!pv::flip("has a value"))
    return 0;
  uint64_t V = pv::any<uint64_t>("value");
  S.ValTab.insert(N, Fact(D), Val{V});
  return V;
}
uint64_t at(Solver &S, Stmt N, unsigned D) {
  return S.ValTab.contains(N, Fact(D)) ? S.ValTab.get(N, Fact(D)).B : 0;
}
bool queued(Solver &S, Stmt N, unsigned D) {
  for (auto &E : S.ValuePropWL)
    if (E.first == N && E.second.V == D)
      return true;
  return false;
}
} // namespace
/// one value arrives at (statement, fact)
PVC_CONTRACT(propagate_value) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  uint64_t Old = put(S, 1, 1), O1 = put(S, 1, 0), O2 = put(S, 2, 1);
  uint64_t L = pv::any<uint64_t>("arriving value");
  S.propagateValue(1, Fact(1), Val{L});
  ensures(at(S, 1, 1) == (Old | L), "values are joined");
  ensures(at(S, 1, 0) == O1 && at(S, 2, 1) == O2, "other values stay");
  ensures(queued(S, 1, 1) == ((Old | L) != Old) && S.ValuePropWL.size() <= 1,
          "exactly changed values are propagated");
}
/// from the start of a procedure to its call sites
PVC_CONTRACT(value_at_start) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  const Stmt N = 1;
  Inf[N].F = 2;
  unsigned NC = pv::choose(3, "call sites");
  for (unsigned I = 0; I < NC; ++I)
    CallsIn[2].push_back(3 + I);
  CallsIn[1].push_back(6);
  struct J {
    Stmt N;
    unsigned D;
    uint64_t Id;
  } Js[2];
  unsigned NJ = pv::choose(3, "jump functions");
  for (unsigned I = 0; I < NJ; ++I) {
    Js[I] = {Stmt(3 + pv::choose(2, "at")), I, anyFn("j")};
    S.JumpFn->addFunction(Fact(1), Js[I].N, Fact(Js[I].D), GEF{Js[I].Id});
  }
  // of another source fact / another procedure
  S.JumpFn->addFunction(Fact(0), 3, Fact(2), GEF{anyFn("other")});
  S.JumpFn->addFunction(Fact(1), 6, Fact(2), GEF{anyFn("other")});
  uint64_t V = put(S, N, 1);
  uint64_t Old[2];
  for (unsigned I = 0; I < NJ; ++I)
    Old[I] = put(S, Js[I].N, Js[I].D);
  S.propagateValueAtStart({N, Fact(1)}, N);
  for (unsigned I = 0; I < NJ; ++I) {
    uint64_t W = Old[I];
    if (Js[I].N < 3 + NC)
      W |= app(Js[I].Id, V);
    ensures(at(S, Js[I].N, Js[I].D) == W,
            "the jump functions carry the start value to the call sites");
    ensures(queued(S, Js[I].N, Js[I].D) == (W != Old[I]),
            "changed values at call sites are propagated");
  }
  ensures(at(S, 3, 2) == 0 && at(S, 6, 2) == 0 && !queued(S, 3, 2) &&
              !queued(S, 6, 2) && at(S, N, 1) == V,
          "no other value changes");
}
/// from a call site to the starts of the callees
PVC_CONTRACT(value_at_call) {
  Prob P;
  setup(P, pv::flip("auto add zero"));
  bool Zero = P.getIFDSIDESolverConfig().autoAddZero();
  Solver S(P, &TheICF);
  const Stmt N = 1;
  unsigned NC = pv::choose(3, "callees");
  for (unsigned I = 0; I < NC; ++I) {
    Inf[N].Callees.push_back(1 + I);
    Starts[1 + I].push_back(3 + 2 * I);
    if (pv::flip("two starts"))
      Starts[1 + I].push_back(4 + 2 * I);
  }
  unsigned D = pv::choose(2, "fact");
  uint64_t V = put(S, N, D);
  S.propagateValueAtCall({N, Fact(D)}, N);
  for (unsigned I = 0; I < NC; ++I)
    for (Stmt SP : Starts[1 + I]) {
      unsigned Mask = flow({Call, N, 1 + I}, D);
      if (Zero && D == 0)
        Mask |= 1;
      for (unsigned D3 = 0; D3 < NumFacts; ++D3) {
        uint64_t W =
            Mask >> D3 & 1 ? app(Prob::callId(N, D, 1 + I, D3), V) : 0;
        ensures(at(S, SP, D3) == W,
                "the call's edge functions carry the value to the callees");
        ensures(queued(S, SP, D3) == (W != 0),
                "changed values at callees are propagated");
      }
    }
  ensures(at(S, N, D) == V, "no other value changes");
}
PVC_CONTRACT(value_dispatch) {
  Prob P;
  setup(P);
  bool Seed = pv::flip("is a seed"), Unb = pv::flip("unbalanced return site");
  if (Seed)
    P.S.addSeed(1, Fact(0), Val{1});
  Solver S(P, &TheICF);
  pv::replace(&Solver::Base::propagateValueAtStart, &startStub);
  pv::replace(&Solver::Base::propagateValueAtCall, &callStub);
  Inf[1].Start = pv::flip("start point");
  Inf[1].Call = pv::flip("call site");
  if (Unb)
    S.UnbalancedRetSites.insert(1);
  S.valuePropagationTask({1, Fact(1)});
  ensures(StartCalled == (Inf[1].Start || Seed || Unb),
          "values at starts, seeds and unbalanced return sites go to the call "
          "sites");
  ensures(CallCalled == Inf[1].Call, "values at calls go to the callees");
}
PVC_CONTRACT(initial_values) {
  Prob P;
  setup(P);
  uint64_t V[2][2] = {};
  unsigned Mask[2];
  for (unsigned I = 0; I < 2; ++I) {
    Mask[I] = pv::choose(4, "seeds of a statement");
    for (unsigned J = 0; J < 2; ++J)
      if (Mask[I] >> J & 1) {
        V[I][J] = pv::any<uint64_t>("seed value");
        P.S.addSeed(1 + I, Fact(J), Val{V[I][J]});
      }
  }
  Solver S(P, &TheICF);
  pv::replace(&Solver::Base::valuePropagationTask, &visitStub);
  bool Unb[2];
  for (unsigned I = 0; I < 2; ++I) {
    Unb[I] = pv::flip("unbalanced return site");
    if (Unb[I])
      S.UnbalancedRetSites.insert(2 + I);
  }
  uint64_t Old = put(S, 1, 1);
  S.submitInitialValues();
  unsigned Want = 0;
  for (unsigned I = 0; I < 2; ++I)
    for (unsigned J = 0; J < 2; ++J) {
      bool B = Mask[I] >> J & 1;
      if (B) {
        uint64_t O = I == 0 && J == 1 ? Old : 0;
        ensures(at(S, 1 + I, J) == (O | V[I][J]),
                "a seed contributes its initial value");
        ensures(Visited[1 + I][J], "the value of a seed is propagated");
        ++Want;
      } else if (!(I == 0 && J == 1)) {
        ensures(at(S, 1 + I, J) == 0, "no other initial values");
      }
    }
  if (Unb[0] && !Mask[1]) {
    ensures(Visited[2][0], "zero is propagated from unbalanced return sites");
    ++Want;
  }
  if (Unb[1]) {
    ensures(Visited[3][0], "zero is propagated from unbalanced return sites");
    ++Want;
  }
  ensures(NumVisited == Want, "nothing else is propagated");
}
namespace {
/// final values of up to two statements
void finalValues(unsigned NStmt, unsigned NSP, unsigned NJump) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  Stmts Vals;
  struct J {
    Stmt N;
    unsigned Src, Tgt;
    uint64_t Id;
  } Js[4];
  unsigned NJ = 0;
  uint64_t Start[2][2] = {}, Old[2][2];
  for (unsigned I = 0; I < NSP; ++I) {
    Starts[1].push_back(6 + I);
    for (unsigned J = 0; J < 2; ++J)
      Start[I][J] = put(S, 6 + I, J);
  }
  for (unsigned I = 0; I < NStmt; ++I) {
    Vals.push_back(1 + I);
    Inf[1 + I].F = 1;
    for (unsigned J = 0; J < NJump; ++J) {
      Js[NJ] = {1 + I, (unsigned)pv::choose(2, "source fact"),
                (unsigned)pv::choose(2, "target fact"), anyFn("jump function")};
      // one function per (source, statement, target)
      bool Dup = false;
      for (unsigned K = 0; K < NJ; ++K)
        Dup |= Js[K].N == Js[NJ].N && Js[K].Src == Js[NJ].Src &&
               Js[K].Tgt == Js[NJ].Tgt;
      if (Dup)
        continue;
      S.JumpFn->addFunction(Fact(Js[NJ].Src), 1 + I, Fact(Js[NJ].Tgt),
                            GEF{Js[NJ].Id});
      ++NJ;
    }
    for (unsigned J = 0; J < 2; ++J)
      Old[I][J] = J == 0 ? put(S, 1 + I, J) : 0;
  }
  S.JumpFn->addFunction(Fact(0), 9, Fact(0), GEF{anyFn("other")});
  S.valueComputationTask(Vals);
  for (unsigned I = 0; I < NStmt; ++I)
    for (unsigned D = 0; D < 2; ++D) {
      uint64_t W = Old[I][D];
      for (unsigned K = 0; K < NJ; ++K)
        if (Js[K].N == 1 + I && Js[K].Tgt == D)
          for (unsigned Q = 0; Q < NSP; ++Q)
            W |= app(Js[K].Id, Start[Q][Js[K].Src]);
      ensures(at(S, 1 + I, D) == W,
              "the value is the join over all start values of the jump "
              "function applied to them");
    }
  for (unsigned Q = 0; Q < NSP; ++Q)
    for (unsigned D = 0; D < 2; ++D)
      ensures(at(S, 6 + Q, D) == Start[Q][D], "start values stay");
  ensures(at(S, 9, 0) == 0, "other statements stay");
}
} // namespace
C1(final_values_one, finalValues(1, 1, 1))
C1(final_values_joins, finalValues(1, 1, 2))
C1(final_values_two_starts, finalValues(1, 2, 1))
C1(final_values_two_stmts, finalValues(2, 1, 1))
namespace {
unsigned Phase = 0, Work = 0, Done2 = 0;
void submitStub(Solver::Base *S) {
  ensures(Phase == 0, "initial values first");
  Phase = 1;
  Work = pv::choose(3, "initial work");
  for (unsigned I = 0; I < Work; ++I)
    S->ValuePropWL.emplace_back(1 + I, Fact(I));
}
void taskStub(Solver::Base *S, std::pair<Stmt, Fact> P) {
  ensures(Phase == 1 && P.first == 1 + P.second.V && !Visited[P.first][P.second.V],
          "every scheduled element is processed once, as it was scheduled");
  Visited[P.first][P.second.V] = true;
  ++Done2;
  if (P.first == 1 && pv::flip("more work")) {
    S->ValuePropWL.emplace_back(3, Fact(2));
    ++Work;
  }
}
void computeStub(Solver::Base *S, const Stmts &V) {
  ensures(Phase == 1 && Done2 == Work && S->ValuePropWL.empty(),
          "the final values are computed when propagation is finished");
  ensures(V.size() == 2 && V[0] == 4 && V[1] == 5,
          "for all statements but calls and starts");
  Phase = 2;
}
unsigned Computed = 0;
void valuesStub(Solver::Base *) { ++Computed; }
} // namespace
PVC_CONTRACT(compute_values) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  NonCallStart = {4, 5};
  pv::replace(&Solver::Base::submitInitialValues, &submitStub);
  pv::replace(&Solver::Base::valuePropagationTask, &taskStub);
  pv::replace(&Solver::Base::valueComputationTask, &computeStub);
  S.computeValues();
  ensures(Phase == 2, "all phases are run");
}
PVC_CONTRACT(finalize) {
  Prob P;
  setup(P);
  bool C = pv::flip("compute values");
  P.getIFDSIDESolverConfig().setComputeValues(C);
  Solver S(P, &TheICF);
  pv::replace(&Solver::Base::computeValues, &valuesStub);
  (void)S.finalize();
  ensures(Computed == C, "values are computed iff configured");
}
/// what the user sees
PVC_CONTRACT(results) {
  Prob P;
  setup(P);
  Solver S(P, &TheICF);
  bool Has[2][2];
  uint64_t V[2][2];
  unsigned Num = 0;
  for (unsigned I = 0; I < 2; ++I)
    for (unsigned J = 0; J < 2; ++J) {
      Has[I][J] = pv::flip("has a value");
      V[I][J] = 0;
      if (Has[I][J]) {
        V[I][J] = pv::any<uint64_t>("value");
        S.ValTab.insert(1 + I, Fact(J), Val{V[I][J]});
        ++Num;
      }
    }
  unsigned How = pv::choose(3, "view");
  auto Check = [&](const auto &R) {
    for (unsigned I = 0; I < 2; ++I) {
      auto All = R.resultsAt(1 + I);
      auto NoZero = R.resultsAt(1 + I, true);
      auto WithZero = R.resultsAt(1 + I, false);
      ensures(All.size() == (unsigned)Has[I][0] + Has[I][1] &&
                  WithZero.size() == All.size() &&
                  NoZero.size() == (unsigned)Has[I][1],
              "results of a statement: exactly the recorded ones");
      for (unsigned J = 0; J < 2; ++J) {
        ensures(R.resultAt(1 + I, Fact(J)).B == V[I][J],
                "the reported value is the computed one, top if unreachable");
        if (Has[I][J])
          ensures(All.count(Fact(J)) && All.at(Fact(J)).B == V[I][J] &&
                      (J == 0) == !NoZero.count(Fact(J)),
                  "results of a statement: values, zero stripped");
      }
    }
    ensures(R.resultAt(7, Fact(0)).B == 0 && R.resultsAt(7).empty(),
            "an unknown statement has no results");
    auto Cells = R.getAllResultEntries();
    ensures(Cells.size() == Num, "all entries");
    for (const auto &C : Cells)
      ensures(C.getRowKey() >= 1 && C.getRowKey() <= 2 &&
                  C.getColumnKey().V < 2 &&
                  Has[C.getRowKey() - 1][C.getColumnKey().V] &&
                  C.getValue().B == V[C.getRowKey() - 1][C.getColumnKey().V],
              "every entry is a recorded one");
  };
  if (How == 0) {
    Check(S.getSolverResults());
    ensures(S.resultAt(1, Fact(0)).B == V[0][0] &&
                S.resultAt(7, Fact(0)).B == 0 &&
                S.resultsAt(1, true).size() == (unsigned)Has[0][1],
            "results asked from the solver");
  } else {
    auto Own = S.consumeSolverResults();
    if (How == 1)
      Check(Own);
    else
      Check(Own.get());
  }
}

//===-- FlowEdgeFunctionCache: what the problem says, once or again -----------//
namespace {
struct Query {
  unsigned K;
  Stmt A, B, C;
  Fn F;
  unsigned X, Y;
};
/// the cached function for Q is the problem's
void query(FlowEdgeFunctionCache<Dom, Facts> &Ca, const Query &Q, bool Zero) {
  auto FF = [&](std::shared_ptr<FlowFunction<Fact, Facts>> P, Key K,
                bool AddZero) {
    ensures(P != nullptr, "there is a flow function");
    unsigned Mask = flow(K, Q.X);
    if (AddZero && Q.X == 0)
      Mask |= 1;
    ensures(P->computeTargets(Fact(Q.X)) == factsOf(Mask),
            "the cache hands out the flow function of that edge");
  };
  switch (Q.K) {
  case 0:
    FF(Ca.getNormalFlowFunction(Q.A, Q.B), {Normal, Q.A, Q.B}, Zero);
    break;
  case 1:
    FF(Ca.getCallFlowFunction(Q.A, Q.F), {Call, Q.A, Q.F}, Zero);
    break;
  case 2:
    FF(Ca.getRetFlowFunction(Q.A, Q.F, Q.B, Q.C), {Ret, Q.A, Q.F, Q.B, Q.C},
       Zero);
    break;
  case 3:
    FF(Ca.getCallToRetFlowFunction(Q.A, Q.B, WantCallees), {CTR, Q.A, Q.B},
       Zero);
    break;
  case 4:
    if (SummaryFor[Q.F])
      FF(Ca.getSummaryFlowFunction(Q.A, Q.F), {Sum, Q.A, Q.F}, false);
    else
      ensures(Ca.getSummaryFlowFunction(Q.A, Q.F) == nullptr,
              "no summary where the problem has none");
    break;
  case 5:
    ensures(idOf(Ca.getNormalEdgeFunction(Q.A, Fact(Q.X), Q.B, Fact(Q.Y))) ==
                Prob::normalId(Q.A, Q.X, Q.B, Q.Y),
            "the cache hands out the normal edge function of that edge");
    break;
  case 6:
    ensures(idOf(Ca.getCallEdgeFunction(Q.A, Fact(Q.X), Q.F, Fact(Q.Y))) ==
                Prob::callId(Q.A, Q.X, Q.F, Q.Y),
            "the cache hands out the call edge function of that edge");
    break;
  case 7:
    ensures(idOf(Ca.getReturnEdgeFunction(Q.A, Q.F, Q.B, Fact(Q.X), Q.C,
                                          Fact(Q.Y))) ==
                Prob::retId(Q.A, Q.F, Q.B, Q.X, Q.C, Q.Y),
            "the cache hands out the return edge function of that edge");
    break;
  case 8:
    ensures(idOf(Ca.getCallToRetEdgeFunction(Q.A, Fact(Q.X), Q.B, Fact(Q.Y),
                                             WantCallees)) ==
                Prob::ctrId(Q.A, Q.X, Q.B, Q.Y),
            "the cache hands out the call-to-return edge function of that "
            "edge");
    break;
  default:
    ensures(idOf(Ca.getSummaryEdgeFunction(Q.A, Fact(Q.X), Q.B, Fact(Q.Y))) ==
                Prob::sumId(Q.A, Q.X, Q.B, Q.Y),
            "the cache hands out the summary edge function of that edge");
  }
}
Query differ(Query Q) {
  switch (pv::choose(7, "which component differs")) {
  case 0:
    Q.A = 6;
    break;
  case 1:
    Q.B = 6;
    break;
  case 2:
    Q.C = 6;
    break;
  case 3:
    Q.F = 2;
    break;
  case 4:
    Q.X ^= 1;
    break;
  case 5:
    Q.Y ^= 1;
    break;
  default:
    // swapped statements
    std::swap(Q.A, Q.B);
  }
  return Q;
}
/// K1 is asked, then K2 for the same or a neighbouring edge, then K1 again
void cache(unsigned K1, unsigned K2) {
  NumFacts = 2;
  Prob P;
  bool Zero = pv::flip("auto add zero");
  setup(P, Zero);
  WantCallees = {1, 2};
  SummaryFor[1] = pv::flip("special summary");
  FlowEdgeFunctionCache<Dom, Facts> Ca(P);
  Query Q{K1, 3, 4, 5, 1, (unsigned)pv::choose(2, "x"),
          (unsigned)pv::choose(2, "y")};
  query(Ca, Q, Zero);
  Query R = pv::flip("same edge") ? Q : differ(Q);
  R.K = K2;
  query(Ca, R, Zero);
  query(Ca, Q, Zero);
  query(Ca, R, Zero);
}
struct LLVMDom : Dom {
  using n_t = const llvm::Instruction *;
  using d_t = const llvm::Value *;
  using f_t = const llvm::Function *;
};
using LLVMCache =
    FlowEdgeFunctionCache<LLVMDom, std::set<const llvm::Value *>>;
} // namespace
C1(cache_normal_ff, cache(0, 0))
C1(cache_call_ff, cache(1, 1))
C1(cache_ret_ff, cache(2, 2))
C1(cache_ctr_ff, cache(3, 3))
C1(cache_sum_ff, cache(4, 4))
C1(cache_normal_ef, cache(5, 5))
C1(cache_call_ef, cache(6, 6))
C1(cache_ret_ef, cache(7, 7))
C1(cache_ctr_ef, cache(8, 8))
C1(cache_sum_ef, cache(9, 9))
C1(cache_normal_ff_ef, cache(0, 5))
C1(cache_normal_ef_ff, cache(5, 0))
C1(cache_ctr_mixed, cache(3, 8))
C1(cache_ctr_sum, cache(8, 9))
C1(cache_normal_ctr, cache(5, 8))
/// LLVM values are numbered: different values never share a number
PVC_CONTRACT(key_compressor) {
  LLVMMapKeyCompressor K;
  auto *Base = reinterpret_cast<const char *>(0x10000);
  auto V = [&](unsigned I) {
    return reinterpret_cast<const llvm::Value *>(Base + 64 * I);
  };
  unsigned Before = pv::choose(4, "values numbered before") * 30;
  for (unsigned I = 0; I < Before; ++I)
    (void)K.getCompressedID(V(1000 + I));
  unsigned N[3] = {0, 1, 2};
  N[1] = pv::choose(2, "second");
  N[2] = pv::choose(3, "third");
  uint32_t Id[3];
  for (unsigned I = 0; I < 3; ++I)
    Id[I] = K.getCompressedID(V(N[I]));
  for (unsigned I = 0; I < 3; ++I) {
    for (unsigned J = 0; J < I; ++J)
      ensures((Id[I] == Id[J]) == (N[I] == N[J]),
              "equal numbers exactly for equal values");
    for (unsigned J = 0; J < Before; J += 29)
      ensures(K.getCompressedID(V(1000 + J)) != Id[I],
              "earlier numbers stay different");
  }
}

/// the cache keys of pairs of LLVM statements and of pairs of LLVM values
PVC_CONTRACT(llvm_keys) {
  alignas(LLVMCache) char Buf[sizeof(LLVMCache)];
  auto *C = reinterpret_cast<LLVMCache *>(Buf);
  new (&C->KeyCompressor) LLVMMapKeyCompressor();
  auto *Base = reinterpret_cast<char *>(0x10000);
  auto I = [&](unsigned N) {
    return reinterpret_cast<const llvm::Instruction *>(Base + 64 * N);
  };
  auto V = [&](unsigned N) {
    return reinterpret_cast<const llvm::Value *>(Base + 64 * N);
  };
  unsigned A = pv::choose(3, "a"), B = pv::choose(3, "b"),
           A2 = pv::choose(3, "a'"), B2 = pv::choose(3, "b'");
  if (pv::flip("statements")) {
    auto K1 = C->createEdgeFunctionInstKey(I(A), I(B));
    auto K2 = C->createEdgeFunctionInstKey(I(A2), I(B2));
    ensures((K1 == K2) == (A == A2 && B == B2),
            "equal keys exactly for equal pairs of statements");
  } else {
    auto K1 = C->createEdgeFunctionNodeKey(V(A), V(B));
    auto K2 = C->createEdgeFunctionNodeKey(V(A2), V(B2));
    ensures((K1 == K2) == (A == A2 && B == B2),
            "equal keys exactly for equal pairs of facts");
  }
}

#ifdef PV_NATIVE
namespace {
template <typename T, size_t N> void clearAll(T (&A)[N]) {
  for (T &X : A)
    X = T();
}
void resetGhosts() {
  clearAll(Inf);
  clearAll(Starts);
  clearAll(Callers);
  clearAll(CallsIn);
  NonCallStart.clear();
  NumChosen = 0;
  NumFacts = 2;
  WantCallees.clear();
  SideEffects = 0;
  clearAll(SummaryFor);
  NumSv = 0;
  Took = 0;
  Seen = Steps();
  Calls = Rem = Fin = Inits = 0;
  Busy = false;
  for (auto &V : Visited)
    clearAll(V);
  NumVisited = 0;
  StartCalled = CallCalled = false;
  Phase = Work = Done2 = 0;
  Computed = 0;
}
pv::OnReset TheReset(&resetGhosts);
} // namespace
#endif
