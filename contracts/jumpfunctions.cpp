// Contracts: include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h and
// include/phasar/Utils/Table.h
//
// A state is an arbitrary partial map (source fact, target, target fact) ->
// edge function with all three views agreeing (the class invariant); all keys
// are arbitrary and may coincide in any component.  Operations are observed at
// an arbitrary key.  The hash function of the keys is constant (which of the
// keys collide is a matter of the trusted std::unordered_map).
#include "pv/lattices.h"
#include "pv/pv.h"

#include "phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h"
#include "phasar/Utils/Table.h"

using namespace psr;

namespace {
template <int Tag> struct Key {
  uint64_t V = 0;
  friend bool operator==(Key A, Key B) { return A.V == B.V; }
  friend bool operator!=(Key A, Key B) { return A.V != B.V; }
  friend bool operator<(Key A, Key B) { return A.V < B.V; }
};
using D = Key<0>;
using N = Key<1>;
} // namespace
namespace std {
template <int T> struct hash<Key<T>> {
  size_t operator()(Key<T>) const noexcept { return 0; }
};
} // namespace std
namespace {
template <int T> struct LLVMPrintable;
using L = pv::PSet;
struct Dom {
  using l_t = L;
  using d_t = D;
  using n_t = N;
};
/// An arbitrary edge function, identified by its Id.
struct Fn {
  using l_t = L;
  uint64_t Id;
  L computeTarget(L X) const { return {X.Bits ^ Id}; }
  static EdgeFunction<L> compose(EdgeFunctionRef<Fn>, const EdgeFunction<L> &S) {
    return S;
  }
  static EdgeFunction<L> join(EdgeFunctionRef<Fn>, const EdgeFunction<L> &S) {
    return S;
  }
  friend bool operator==(Fn A, Fn B) { return A.Id == B.Id; }
};
EdgeFunction<L> fn(uint64_t Id) { return Fn{Id}; }
bool is(const EdgeFunction<L> &F, uint64_t Id) {
  auto *P = llvm::dyn_cast<Fn>(F);
  return P && P->Id == Id;
}
using JF = JumpFunctions<Dom, std::set<D>>;
using Entry = std::pair<D, EdgeFunction<L>>;
using List = llvm::SmallVector<Entry, 1>;

struct Rec {
  D S;
  N T;
  D V;
  uint64_t F;
  bool Live = true;
};
bool at(const Rec &R, D S, N T, D V) { return R.S == S && R.T == T && R.V == V; }
struct Ghost {
  Rec R[4];
  unsigned Num = 0;
  /// index of the record with that key or -1
  int find(D S, N T, D V) const {
    for (unsigned I = 0; I < Num; ++I)
      if (R[I].Live && at(R[I], S, T, V))
        return I;
    return -1;
  }
  void put(D S, N T, D V, uint64_t F) {
    int I = find(S, T, V);
    if (I >= 0)
      R[I].F = F;
    else
      R[Num++] = Rec{S, T, V, F};
  }
};
D anyD(const char *Nm) { return D{pv::any<uint64_t>(Nm)}; }
N anyN(const char *Nm) { return N{pv::any<uint64_t>(Nm)}; }

/// An arbitrary state with at most Max recorded functions; empty lists may be
/// left behind by removals.
Ghost make(JF &J, unsigned Max) {
  pv_note_bounded_("states with at most two recorded jump functions");
  Ghost G;
  unsigned K = pv::choose(Max + 1, "records");
  for (unsigned I = 0; I < K; ++I) {
    D S = anyD("s"), V = anyD("v");
    N T = anyN("t");
    if (G.find(S, T, V) >= 0)
      pv_die_();
    uint64_t F = pv::any<uint64_t>("f");
    G.R[G.Num++] = Rec{S, T, V, F};
    J.NonEmptyReverseLookup.Tab[T][V].emplace_back(S, fn(F));
    J.NonEmptyForwardLookup.Tab[S][T].emplace_back(V, fn(F));
    J.NonEmptyLookupByTargetNode[T].Tab[S][V] = fn(F);
  }
  return G;
}
template <typename O>
void checkList(O &&Got, D Key, int I, const Ghost &G, unsigned Want,
               const char *Label) {
  unsigned Hits = 0, Size = 0;
  bool Right = true;
  if (Got) {
    for (Entry &E : Got->get()) {
      ++Size;
      if (E.first == Key) {
        ++Hits;
        Right = Right && I >= 0 && is(E.second, G.R[I].F);
      }
    }
  }
  pv::ensures(Hits == (I >= 0), Label);
  pv::ensures(Right, Label);
  pv::ensures(Size == Want, Label);
}
/// All views at the arbitrary key (S, T, V) agree with G.
void observe(JF &J, const Ghost &G) {
  D S = anyD("observed s"), V = anyD("observed v");
  N T = anyN("observed t");
  int I = G.find(S, T, V);
  unsigned SameTV = 0, SameST = 0, SameT = 0, All = 0;
  for (unsigned K = 0; K < G.Num; ++K)
    if (G.R[K].Live) {
      ++All;
      if (G.R[K].T == T) {
        ++SameT;
        if (G.R[K].V == V)
          ++SameTV;
        if (G.R[K].S == S)
          ++SameST;
      }
    }
  switch (pv::choose(4, "view")) {
  case 0:
    checkList(J.reverseLookup(T, V), S, I, G, SameTV,
              "reverseLookup: exactly the recorded sources");
    break;
  case 1:
    checkList(J.forwardLookup(S, T), V, I, G, SameST,
              "forwardLookup: exactly the recorded targets");
    break;
  case 2: {
    auto &Tab = J.lookupByTarget(T);
    pv::ensures(Tab.contains(S, V) == (I >= 0),
                "lookupByTarget: exactly the recorded functions");
    if (I >= 0)
      pv::ensures(is(Tab.get(S, V), G.R[I].F),
                  "lookupByTarget: the recorded function");
    unsigned Cells = 0;
    Tab.foreachCell([&](D, D, EdgeFunction<L>) { ++Cells; });
    pv::ensures(Cells == SameT, "lookupByTarget: exactly the recorded functions");
    break;
  }
  default: {
    unsigned Cnt = 0, *P = &Cnt;
    uint64_t Sum = 0, *PS = &Sum, Want = 0;
    static_cast<const JF &>(J).foreachEdgeFunction([P, PS](const EdgeFunction<L> &F) {
      ++*P;
      if (auto *X = llvm::dyn_cast<Fn>(F))
        *PS += X->Id;
    });
    for (unsigned K = 0; K < G.Num; ++K)
      if (G.R[K].Live)
        Want += G.R[K].F;
    pv::ensures(Cnt == All && Sum == Want,
                "foreachEdgeFunction visits every recorded function once");
  }
  }
}
} // namespace

PVC_CONTRACT(lookup) {
  JF J;
  Ghost G = make(J, 2);
  // lookups do not change anything
  D S = anyD("source"), V = anyD("target fact");
  N T = anyN("target");
  J.reverseLookup(T, V);
  J.forwardLookup(S, T);
  J.lookupByTarget(T);
  observe(J, G);
}
PVC_CONTRACT(add_function) {
  JF J;
  Ghost G = make(J, 2);
  D S = anyD("source"), V = anyD("target fact");
  N T = anyN("target");
  if (pv::flip("all-top")) {
    // the default is not stored
    J.addFunction(S, T, V, AllTop<L>{});
  } else {
    uint64_t F = pv::any<uint64_t>("function");
    J.addFunction(S, T, V, fn(F));
    G.put(S, T, V, F);
  }
  observe(J, G);
}
PVC_CONTRACT(remove_function) {
  JF J;
  Ghost G = make(J, 2);
  D S = anyD("source"), V = anyD("target fact");
  N T = anyN("target");
  int I = G.find(S, T, V);
  bool R = J.removeFunction(S, T, V);
  pv::ensures(R == (I >= 0), "removeFunction tells whether it was there");
  if (I >= 0)
    G.R[I].Live = false;
  observe(J, G);
  if (I >= 0 && pv::flip("again"))
    pv::ensures(!J.removeFunction(S, T, V), "removed already");
}
PVC_CONTRACT(clear_and_copy) {
  JF J;
  Ghost G = make(J, 2);
  switch (pv::choose(2, "how")) {
  case 0:
    J.clear();
    G.Num = 0;
    observe(J, G);
    break;
  default: {
    JF M(std::move(J));
    observe(M, G);
  }
  }
}

// ---- Table -------------------------------------------------------------------
namespace {
using R = Key<2>;
using C = Key<3>;
struct V {
  uint64_t X = 0;
  friend bool operator==(const V &A, const V &B) { return A.X == B.X; }
  friend bool operator<(const V &A, const V &B) { return A.X < B.X; }
};
using Tb = Table<R, C, V>;
struct TGhost {
  R Row[3];
  C Col[3];
  uint64_t Val[3];
  bool Live[3];
  unsigned Num = 0;
  int find(R A, C B) const {
    for (unsigned I = 0; I < Num; ++I)
      if (Live[I] && Row[I] == A && Col[I] == B)
        return I;
    return -1;
  }
  void put(R A, C B, uint64_t X) {
    int I = find(A, B);
    if (I < 0) {
      I = Num++;
      Row[I] = A;
      Col[I] = B;
      Live[I] = true;
    }
    Val[I] = X;
  }
  unsigned live() const {
    unsigned N = 0;
    for (unsigned I = 0; I < Num; ++I)
      N += Live[I];
    return N;
  }
};
TGhost makeT(Tb &T) {
  pv_note_bounded_("tables with at most two entries");
  TGhost G;
  unsigned K = pv::choose(3, "entries");
  for (unsigned I = 0; I < K; ++I) {
    R A{pv::any<uint64_t>("row")};
    C B{pv::any<uint64_t>("column")};
    if (G.find(A, B) >= 0)
      pv_die_();
    uint64_t X = pv::any<uint64_t>("value");
    T.Tab[A][B] = V{X};
    G.put(A, B, X);
  }
  return G;
}
void observeT(Tb &T, const TGhost &G) {
  const Tb &CT = T;
  R A{pv::any<uint64_t>("observed row")};
  C B{pv::any<uint64_t>("observed column")};
  int I = G.find(A, B);
  uint64_t Want = I >= 0 ? G.Val[I] : 0;
  unsigned InRow = 0, InCol = 0, Live = G.live();
  for (unsigned K = 0; K < G.Num; ++K)
    if (G.Live[K]) {
      InRow += G.Row[K] == A;
      InCol += G.Col[K] == B;
    }
  switch (pv::choose(8, "view")) {
  case 0:
    pv::ensures(CT.contains(A, B) == (I >= 0), "contains");
    pv::ensures(CT.get(A, B).X == Want, "get: the value, or the default");
    break;
  case 1:
    pv::ensures(CT.containsColumn(B) == (InCol != 0), "containsColumn");
    if (InRow)
      pv::ensures(CT.containsRow(A), "containsRow");
    break;
  case 2: {
    V &X = T.get(A, B);
    pv::ensures(X.X == Want, "get: the value, or the default");
    X.X = 77;
    pv::ensures(CT.get(A, B).X == 77, "get refers to the table's value");
    break;
  }
  case 3: {
    const auto &Row = CT.row(A);
    pv::ensures(Row.size() == InRow, "row: exactly the row's entries");
    auto It = Row.find(B);
    pv::ensures((It != Row.end()) == (I >= 0), "row: exactly the row's entries");
    if (I >= 0)
      pv::ensures(It->second.X == Want, "row: the values");
    break;
  }
  case 4: {
    auto Col = CT.column(B);
    pv::ensures(Col.size() == InCol, "column: exactly the column's entries");
    auto It = Col.find(A);
    pv::ensures((It != Col.end()) == (I >= 0),
                "column: exactly the column's entries");
    if (I >= 0)
      pv::ensures(It->second.X == Want, "column: the values");
    break;
  }
  case 5: {
    unsigned Hits = 0, All = 0;
    for (const auto &Cell : CT.cellVec()) {
      ++All;
      if (Cell.getRowKey() == A && Cell.getColumnKey() == B) {
        ++Hits;
        pv::ensures(I >= 0 && Cell.getValue().X == Want, "cellVec: the values");
      }
    }
    pv::ensures(All == Live && Hits == (I >= 0), "cellVec: every entry once");
    break;
  }
  case 6: {
    unsigned Hits = 0, All = 0;
    for (const auto &Cell : CT.cellSet()) {
      ++All;
      if (Cell.Row == A && Cell.Column == B) {
        ++Hits;
        pv::ensures(I >= 0 && Cell.Value.X == Want, "cellSet: the values");
      }
    }
    pv::ensures(All == Live && Hits == (I >= 0), "cellSet: every entry once");
    break;
  }
  default: {
    unsigned Hits = 0, All = 0;
    auto F = [&](R X, C Y, const V &Z) {
      ++All;
      if (X == A && Y == B) {
        ++Hits;
        pv::ensures(I >= 0 && Z.X == Want, "foreachCell: the values");
      }
    };
    if (pv::flip("const"))
      CT.foreachCell(F);
    else
      T.foreachCell(F);
    pv::ensures(All == Live && Hits == (I >= 0), "foreachCell: every entry once");
  }
  }
}
} // namespace
PVC_CONTRACT(table_lookup) {
  Tb T;
  TGhost G = makeT(T);
  pv::ensures(T.empty() == (G.Num == 0), "empty");
  observeT(T, G);
}
PVC_CONTRACT(table_update) {
  Tb T;
  TGhost G = makeT(T);
  R A{pv::any<uint64_t>("a")};
  C B{pv::any<uint64_t>("b")};
  int I = G.find(A, B);
  switch (pv::choose(4, "operation")) {
  case 0: {
    uint64_t X = pv::any<uint64_t>("x");
    T.insert(A, B, V{X});
    G.put(A, B, X);
    break;
  }
  case 1: {
    V Old = T.remove(A, B);
    pv::ensures(Old.X == (I >= 0 ? G.Val[I] : 0), "remove yields the old value");
    if (I >= 0)
      G.Live[I] = false;
    pv::ensures(T.empty() == (G.live() == 0), "no empty rows are left behind");
    break;
  }
  case 2:
    T.remove(A);
    for (unsigned K = 0; K < G.Num; ++K)
      if (G.Row[K] == A)
        G.Live[K] = false;
    break;
  default:
    T.clear();
    G.Num = 0;
    pv::ensures(T.empty(), "clear");
  }
  observeT(T, G);
}
PVC_CONTRACT(table_copy) {
  Tb T;
  TGhost G = makeT(T);
  Tb Cp(T);
  pv::ensures(Cp == T, "a copy is equal");
  Tb M(std::move(T));
  pv::ensures(Cp == M, "moving keeps the contents");
  observeT(pv::flip("copy") ? Cp : M, G);
}
