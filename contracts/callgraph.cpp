// Contracts: include/phasar/ControlFlow/CallGraph.h
//
// A state is an arbitrary edge list between arbitrary functions and call
// sites, recorded in both directions (the class invariant).  Every operation
// is observed at an arbitrary call site and an arbitrary function.
#include "pv/pv.h"

#include "phasar/ControlFlow/CallGraph.h"

using namespace psr;

namespace {
/// Functions and call sites: identified by a number, 0 is "no such vertex".
template <int Tag> struct Key {
  uint64_t V = 0;
  explicit operator bool() const { return V != 0; }
  friend bool operator==(Key A, Key B) { return A.V == B.V; }
  friend bool operator!=(Key A, Key B) { return A.V != B.V; }
};
using Fn = Key<0>;
using CS = Key<1>;
} // namespace
namespace llvm {
template <int T> struct DenseMapInfo<Key<T>> {
  static Key<T> getEmptyKey() { return {~0ull}; }
  static Key<T> getTombstoneKey() { return {~0ull - 1}; }
  static unsigned getHashValue(Key<T>) { return 0; }
  static bool isEqual(Key<T> A, Key<T> B) { return A == B; }
};
} // namespace llvm
namespace {
using CG = CallGraph<CS, Fn>;
using Builder = CallGraphBuilder<CS, Fn>;
using FV = Builder::FunctionVertexTy;
using IV = Builder::InstructionVertexTy;
template <typename K> K anyKey(const char *Nm) {
  uint64_t V = pv::any<uint64_t>(Nm);
  pv::requires_(V < ~0ull - 1);
  return {V};
}
template <typename K> K anyVertex(const char *Nm) {
  K X = anyKey<K>(Nm);
  pv::requires_(X.V != 0);
  return X;
}

struct Ghost {
  Fn F[4];
  FV *FH[4] = {};
  unsigned NF = 0;
  CS C[4];
  IV *CH[4] = {};
  unsigned NC = 0;
  struct {
    CS C;
    Fn F;
  } E[8];
  unsigned NE = 0;
  int fun(Fn X) const {
    for (unsigned I = 0; I < NF; ++I)
      if (F[I] == X)
        return I;
    return -1;
  }
  int site(CS X) const {
    for (unsigned I = 0; I < NC; ++I)
      if (C[I] == X)
        return I;
    return -1;
  }
  void addFun(Fn X) {
    if (fun(X) < 0)
      F[NF++] = X;
  }
  void addSite(CS X) {
    if (site(X) < 0)
      C[NC++] = X;
  }
  void addEdge(CS A, Fn B) {
    addSite(A);
    addFun(B);
    E[NE++] = {A, B};
  }
  unsigned edges(CS A, Fn B) const {
    unsigned N = 0;
    for (unsigned I = 0; I < NE; ++I)
      N += E[I].C == A && E[I].F == B;
    return N;
  }
  unsigned from(CS A) const {
    unsigned N = 0;
    for (unsigned I = 0; I < NE; ++I)
      N += E[I].C == A;
    return N;
  }
  unsigned into(Fn B) const {
    unsigned N = 0;
    for (unsigned I = 0; I < NE; ++I)
      N += E[I].F == B;
    return N;
  }
};

Ghost make(Builder &B, unsigned MaxF, unsigned MaxC, unsigned MaxE) {
  pv_note_bounded_("call graphs with at most two functions, two call sites and "
                   "three edges");
  Ghost G;
  // room for the vertices that exist and one more: the documented precondition
  unsigned NF = pv::choose(MaxF + 1, "functions");
  unsigned NC = pv::choose(MaxC + 1, "call sites");
  B.reserve(NF + 2);
  for (unsigned I = 0; I < NF; ++I) {
    Fn F = anyVertex<Fn>("f");
    pv::requires_(G.fun(F) < 0);
    G.F[G.NF] = F;
    FV *P = &B.CG.FunVertexOwner.emplace_back();
    G.FH[G.NF++] = P;
    B.CG.CallersOf[F] = P;
  }
  for (unsigned I = 0; I < NC; ++I) {
    CS C = anyVertex<CS>("c");
    pv::requires_(G.site(C) < 0);
    G.C[G.NC] = C;
    IV *P = &B.CG.InstVertexOwner.emplace_back();
    G.CH[G.NC++] = P;
    B.CG.CalleesAt[C] = P;
  }
  if (NF && NC) {
    unsigned NE = pv::choose(MaxE + 1, "edges");
    for (unsigned I = 0; I < NE; ++I) {
      unsigned A = NC > 1 ? pv::choose(NC, "from") : 0;
      unsigned T = NF > 1 ? pv::choose(NF, "to") : 0;
      G.CH[A]->push_back(G.F[T]);
      G.FH[T]->push_back(G.C[A]);
      G.E[G.NE++] = {G.C[A], G.F[T]};
    }
  }
  return G;
}
void observe(const CG &X, const Ghost &G, bool Sites = true) {
  CS A = anyKey<CS>("observed call site");
  Fn B = anyKey<Fn>("observed function");
  unsigned Want = G.edges(A, B);
  switch (pv::choose(3, "view")) {
  case 0: {
    auto L = X.getCalleesOfCallAt(A);
    pv::ensures(L.size() == G.from(A), "callees: exactly the edges added");
    unsigned Hits = 0;
    for (Fn F : L)
      Hits += F == B;
    pv::ensures(Hits == Want, "callees: exactly the edges added");
    break;
  }
  case 1: {
    auto L = X.getCallersOf(B);
    pv::ensures(L.size() == G.into(B), "callers: exactly the edges added");
    unsigned Hits = 0;
    for (CS C : L)
      Hits += C == A;
    pv::ensures(Hits == Want, "callers: exactly the edges added");
    break;
  }
  default: {
    pv::ensures(X.getNumVertexFunctions() == G.NF && X.size() == G.NF,
                "every function is a vertex once");
    pv::ensures(X.empty() == (G.NF == 0), "empty");
    unsigned Hits = 0;
    for (Fn F : X.getAllVertexFunctions())
      Hits += F == B;
    pv::ensures(Hits == (G.fun(B) >= 0), "every function is a vertex once");
    if (Sites) {
      pv::ensures(X.getNumVertexCallSites() == G.NC,
                  "every call site is a vertex once");
      Hits = 0;
      for (CS C : X.getAllVertexCallSites())
        Hits += C == A;
      pv::ensures(Hits == (G.site(A) >= 0), "every call site is a vertex once");
    }
  }
  }
}
/// The handles returned earlier still are the vertices.
void handles(Builder &B, const Ghost &Old) {
  for (unsigned I = 0; I < Old.NF; ++I)
    pv::ensures(B.CG.CallersOf.lookup(Old.F[I]) == Old.FH[I],
                "a function's handle stays valid");
  for (unsigned I = 0; I < Old.NC; ++I)
    pv::ensures(B.getInstVertexOrNull(Old.C[I]) == Old.CH[I],
                "a call site's handle stays valid");
}
} // namespace

PVC_CONTRACT(lookup) {
  Builder B;
  Ghost G = make(B, 2, 2, 3);
  observe(B.viewCallGraph(), G);
}
PVC_CONTRACT(handle_lookup) {
  Builder B;
  Ghost G = make(B, 2, 2, 1);
  CS C = anyVertex<CS>("call site");
  int I = G.site(C);
  pv::ensures(B.getInstVertexOrNull(C) == (I < 0 ? nullptr : G.CH[I]),
              "getInstVertexOrNull: the call site's vertex");
  handles(B, G);
  observe(B.viewCallGraph(), G);
}
PVC_CONTRACT(add_function_vertex) {
  Builder B;
  Ghost G = make(B, 2, 1, 1), Old = G;
  Fn F = anyVertex<Fn>("new function");
  int I = G.fun(F);
  FV *P = B.addFunctionVertex(F);
  if (I >= 0)
    pv::ensures(P == G.FH[I], "an existing vertex is returned");
  G.addFun(F);
  pv::ensures(P->size() == G.into(F), "the vertex has the callers known so far");
  pv::ensures(B.addFunctionVertex(F) == P, "the same vertex again");
  handles(B, Old);
  observe(B.viewCallGraph(), G);
}
PVC_CONTRACT(add_instruction_vertex) {
  Builder B;
  Ghost G = make(B, 1, 2, 1), Old = G;
  CS C = anyVertex<CS>("new call site");
  int I = G.site(C);
  IV *P = B.addInstructionVertex(C);
  if (I >= 0)
    pv::ensures(P == G.CH[I], "an existing vertex is returned");
  G.addSite(C);
  pv::ensures(P->size() == G.from(C), "the vertex has the callees known so far");
  pv::ensures(B.addInstructionVertex(C) == P, "the same vertex again");
  handles(B, Old);
  observe(B.viewCallGraph(), G);
}
PVC_CONTRACT(add_edge) {
  Builder B;
  Ghost G = make(B, 2, 2, 1), Old = G;
  CS C = anyVertex<CS>("from");
  Fn F = anyVertex<Fn>("to");
  switch (pv::choose(3, "overload")) {
  case 0:
    B.addCallEdge(C, F);
    break;
  case 1:
    B.addCallEdge(C, B.addInstructionVertex(C), F);
    break;
  default:
    B.addCallEdge(C, F, B.addFunctionVertex(F));
  }
  G.addEdge(C, F);
  handles(B, Old);
  if (pv::flip("consume")) {
    CG X = B.consumeCallGraph();
    CG Y;
    Y = std::move(X);
    observe(Y, G);
  } else
    observe(B.viewCallGraph(), G);
}
/// Many additions: neither the owner of the call sites nor the maps forget or
/// move anything when they grow.
PVC_CONTRACT(growth) {
  Builder B;
  Ghost G = make(B, 1, 1, 1), Old = G;
  unsigned N = 1 + pv::choose(3, "added") * 30;
  unsigned Sites = G.NC;
  uint64_t Base = pv::any<uint64_t>("base");
  pv::requires_(Base != 0 && Base < (1ull << 62));
  for (unsigned I = 0; I < G.NC; ++I)
    pv::requires_(G.C[I].V < Base || G.C[I].V >= Base + N);
  Fn F = G.NF ? G.F[0] : anyVertex<Fn>("f");
  IV *First = nullptr;
  for (unsigned I = 0; I < N; ++I) {
    if (I == 0)
      First = B.addInstructionVertex(CS{Base});
    B.addCallEdge(CS{Base + I}, F);
  }
  handles(B, Old);
  pv::ensures(B.getInstVertexOrNull(CS{Base}) == First, "the handle stays valid");
  const CG &X = B.viewCallGraph();
  pv::ensures(X.getNumVertexCallSites() == Sites + N, "all call sites");
  pv::ensures(X.getCallersOf(F).size() == Old.into(F) + N, "all callers");
  unsigned K = pv::choose(2, "which") ? N - 1 : 0;
  auto L = X.getCalleesOfCallAt(CS{Base + K});
  pv::ensures(L.size() == 1 && L[0] == F, "the edge's callee");
  unsigned Hits = 0;
  for (CS C : X.getCallersOf(F))
    Hits += C.V == Base + K;
  pv::ensures(Hits == 1, "the edge's caller");
}

// ---- serialization -------------------------------------------------------------
namespace {
CallGraphData *Captured = nullptr;
void capture(CallGraphData *This, llvm::raw_ostream &) {
  Captured = new CallGraphData(*This);
}
const char *const Names[] = {"f", "g", "main"};
} // namespace
#ifndef PV_NATIVE
PVC_CONTRACT(roundtrip) {
  pv::replace(&CallGraphData::printAsJson, &capture);
  pv_note_assumption_("CallGraphData::printAsJson and loadJsonString are inverse "
                      "(nlohmann::json)");
  Builder B;
  Ghost G = make(B, 2, 2, 2);
  CG X = B.consumeCallGraph();
  uint32_t Id[2];
  for (unsigned I = 0; I < G.NC; ++I) {
    Id[I] = pv::any<uint32_t>("id");
    if (I)
      pv::requires_(Id[I] != Id[0]);
  }
  llvm::raw_ostream *OS = &llvm::errs();
  X.printAsJson(
      *OS,
      [&](Fn F) -> std::string {
        int I = G.fun(F);
        return Names[I];
      },
      [&](CS C) { return Id[G.site(C)]; });
  pv::ensures(Captured != nullptr, "something is written");
  CallGraphData *Data = Captured;
  pv::ensures(Data->FToFunctionVertexTy.size() == G.NF, "every function is written");
  // the reader may know fewer functions and call sites
  int LostF = pv::choose(G.NF + 1, "unknown function") - 1;
  int LostC = pv::choose(G.NC + 1, "unknown call site") - 1;
  CG Y = CG::deserialize(
      *Data,
      [&](const std::string &S) -> Fn {
        for (unsigned I = 0; I < G.NF; ++I)
          if (S == Names[I] && int(I) != LostF)
            return G.F[I];
        return {};
      },
      [&](uint32_t X) -> CS {
        for (unsigned I = 0; I < G.NC; ++I)
          if (X == Id[I] && int(I) != LostC)
            return G.C[I];
        return {};
      });
  Ghost W;
  for (unsigned I = 0; I < G.NF; ++I)
    if (int(I) != LostF)
      W.addFun(G.F[I]);
  for (unsigned I = 0; I < G.NE; ++I)
    if ((LostF < 0 || G.E[I].F != G.F[LostF]) &&
        (LostC < 0 || G.E[I].C != G.C[LostC]))
      W.addEdge(G.E[I].C, G.E[I].F);
  observe(Y, W);
  delete Data;
  Captured = nullptr;
}
#endif
