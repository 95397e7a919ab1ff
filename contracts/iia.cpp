// Contracts: the instruction-interaction analysis' edge functions
// (include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h)
//
// A label set stands for an arbitrary finite set over an arbitrary universe,
// observed at one arbitrary label: BitVectorSet<Label> enters through its
// contract (proved against its body in bitvectorset.cpp, property C06).
// Edge functions are obtained through the analysis' own interface.
#include "pv/lattices.h"
#include "pv/llvmir.h"

#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include <set>

namespace pv {
struct Label {
  uint32_t Name = 0;
  friend bool operator==(Label A, Label B) { return A.Name == B.Name; }
  friend bool operator<(Label A, Label B) { return A.Name < B.Name; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Label) {
    return OS;
  }
  friend std::ostream &operator<<(std::ostream &OS, Label) { return OS; }
};
/// identity, membership of the observed label
struct AbsSet {
  uint64_t Id = 0;
  bool Has = false;
};
Label TheLabel; // the observed label
} // namespace pv
namespace psr {
/// The contract of BitVectorSet.
template <> class BitVectorSet<pv::Label> {
public:
  uint64_t Id = 0; // 0: the empty set
  bool Has = false;
  using value_type = pv::Label;
  using const_iterator = const pv::Label *;
  BitVectorSet() = default;
  BitVectorSet(std::initializer_list<pv::Label> L) {
    for (auto X : L)
      insert(X);
  }
  void reserve(size_t) {}
  void become(uint64_t NewId, bool H) {
    // a set without the observed label may be empty, one with it is not
    pv::assume(pv_or_(NewId != 0, !H));
    // equal sets have equal members
    pv::assume((pv_uf1("has", NewId) & 1) == H);
    Id = NewId;
    Has = H;
  }
  void insert(pv::Label L) {
    uint64_t N = pv_uf2("insert", Id, L.Name);
    pv::assume(N != 0);
    become(N, pv_or_(Has, L.Name == pv::TheLabel.Name));
  }
  template <typename It> void insert(It B, It E) {
    for (; B != E; ++B)
      insert(*B);
  }
  BitVectorSet setUnion(const BitVectorSet &O) const {
    BitVectorSet R;
    uint64_t N = pv_uf2("union", Id, O.Id);
    pv::assume((N == 0) == pv_and_(Id == 0, O.Id == 0));
    R.become(N, pv_or_(Has, O.Has));
    return R;
  }
  void setUnionWith(const BitVectorSet &O) { *this = setUnion(O); }
  void insert(const BitVectorSet &O) { *this = setUnion(O); }
  void clear() { *this = {}; }
  bool empty() const { return Id == 0; }
  bool count(pv::Label) const { return Has; }
  const_iterator begin() const { return nullptr; }
  const_iterator end() const { return nullptr; }
  size_t size() const { return pv_uf1("size", Id); }
  friend bool operator==(const BitVectorSet &A, const BitVectorSet &B) {
    return A.Id == B.Id;
  }
  friend bool operator!=(const BitVectorSet &A, const BitVectorSet &B) {
    return A.Id != B.Id;
  }
  friend bool operator<(const BitVectorSet &A, const BitVectorSet &B) {
    return A.Id < B.Id;
  }
  friend llvm::hash_code hash_value(const BitVectorSet &) noexcept {
    return llvm::hash_code(size_t(7)); // some function of the contents
  }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
                                       const BitVectorSet &) {
    return OS;
  }
};
} // namespace psr

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"

// declared "extern template" in the header; instantiated from its bodies here
template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;

using namespace psr;
using Set = BitVectorSet<pv::Label>;
using Val = LatticeDomain<Set>;
using EF = EdgeFunction<Val>;

namespace pv {
template <> struct Lat<Val> {
  static Set anySet(const char *N) {
    Set S;
    uint64_t Id = pv::any<uint64_t>(N);
    S.become(Id, pv_uf1("has", Id) & 1);
    return S;
  }
  static Val any(const char *N) {
    switch (choose(3, N)) {
    case 0:
      return psr::Top{};
    case 1:
      return psr::Bottom{};
    default:
      return anySet(N);
    }
  }
  // 0: top, 1: a set, 2: bottom
  static uint64_t tag(const Val &X) {
    return X.isTop() ? 0 : X.isBottom() ? 2 : 1;
  }
  static bool has(const Val &X) {
    return tag(X) == 1 && std::get<Set>(X).Has;
  }
  /// equal at the observed label (hence at every label)
  static bool eq(const Val &A, const Val &B) {
    return tag(A) == tag(B) && has(A) == has(B);
  }
};
} // namespace pv
using VL = pv::Lat<Val>;

namespace {
/// The specification of joining label sets.
Val unite(const Val &A, const Val &B) {
  uint64_t TA = VL::tag(A), TB = VL::tag(B);
  if (TA == 0)
    return B;
  if (TB == 0)
    return A;
  if (TA == 2 || TB == 2)
    return Bottom{};
  return std::get<Set>(A).setUnion(std::get<Set>(B));
}
alignas(16) char ZeroBuf[256];
const LLVMZeroValue *fakeZero() {
  return reinterpret_cast<const LLVMZeroValue *>(ZeroBuf);
}
const llvm::Value *zero() { return LLVMZeroValue::getInstance(); }
llvm::Function *HeapFn;
bool fakeHeap(const llvm::Function *F) noexcept { return F == HeapFn; }
bool fakeHeapImpl(const void *, const llvm::Function *F) { return F == HeapFn; }
const llvm::CallBase *SRetCall;
bool fakeParamAttr(const llvm::CallBase *C, unsigned I,
                   llvm::Attribute::AttrKind K) {
  return C == SRetCall && I == 0 && K == llvm::Attribute::StructRet;
}
/// Arbitrary alias information.
struct AnyAlias {
  using n_t = const llvm::Instruction *;
  using v_t = const llvm::Value *;
  using Ref = LLVMAliasInfoRef;
  bool Reach[8] = {};
  const llvm::Value *Vals[8] = {};
  const llvm::Value *Ptr = nullptr;
  bool isInterProcedural() const noexcept { return false; }
  AliasAnalysisType getAliasAnalysisType() const noexcept {
    return AliasAnalysisType::Invalid;
  }
  AliasResult alias(v_t, v_t, n_t) { return AliasResult::MayAlias; }
  Ref::AliasSetPtrTy getAliasSet(v_t, n_t) { return nullptr; }
  std::unique_ptr<Ref::AliasSetTy> getReachableAllocationSites(v_t P, bool,
                                                               n_t) {
    auto R = std::make_unique<Ref::AliasSetTy>();
    for (int I = 0; I < 8; ++I)
      if (Vals[I] && isInReachableAllocationSites(P, Vals[I], true, nullptr))
        R->insert(Vals[I]);
    return R;
  }
  bool isInReachableAllocationSites(v_t P, v_t V, bool, n_t) {
    if (P != Ptr)
      return P == V;
    for (int I = 0; I < 8; ++I)
      if (Vals[I] == V)
        return Reach[I];
    return false;
  }
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(AnyAlias &) {}
  void introduceAlias(v_t, v_t, n_t, AliasResult) {}
  AnalysisProperties getAnalysisProperties() const noexcept {
    return AnalysisProperties::None;
  }
};

template <bool Syn> struct Fixture {
  using IIA = IDEInstInteractionAnalysisT<pv::Label, Syn>;
  using Add = typename IIA::IIAAAddLabelsEF;
  using Kill = typename IIA::IIAAKillOrReplaceEF;
  pv::ir::World W;
  char IRDBBuf[64] = {};
  char ICFBuf[64] = {};
  AnyAlias AA;
  alignas(IIA) char PBuf[sizeof(IIA)];
  IIA *Pr;
  std::set<pv::Label> User; // what the user generator yields
  const void *AskedFor = nullptr;
  Set UserSet;

  explicit Fixture(bool Gen = false) {
    pv::TheLabel.Name = pv::any<uint32_t>("observed label");
    pv::assume((pv_uf1("has", 0) & 1) == 0);
    reinterpret_cast<pv::ir::RawValue *>(ZeroBuf)->SubclassID =
        llvm::Value::GlobalVariableVal;
    pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
    LLVMAliasInfoRef PT(&AA);
    Pr = new (PBuf) IIA(reinterpret_cast<const LLVMProjectIRDB *>(IRDBBuf),
                        reinterpret_cast<const LLVMBasedICFG *>(ICFBuf), PT,
                        {});
    if (Gen) {
      unsigned N = pv::choose(3, "user labels");
      pv_note_bounded_("edge-fact generators yielding at most two labels");
      for (unsigned I = 0; I < N; ++I)
        User.insert(pv::Label{pv::any<uint32_t>("user label")});
      UserSet.insert(User.begin(), User.end());
      Pr->registerEdgeFactGenerator(
          [this](std::variant<const llvm::Instruction *,
                              const llvm::GlobalVariable *>
                     S) -> std::set<pv::Label> {
            if (auto *I = std::get_if<0>(&S))
              AskedFor = *I;
            return User;
          });
    }
  }
  ~Fixture() { Pr->~IIA(); }
  EF add(Val D) { return Pr->IIAAAddLabelsEFCache.createEdgeFunction(D); }
  EF kill(Val D) {
    return Pr->IIAAKillOrReplaceEFCache.createEdgeFunction(D);
  }
};
enum Kinds { KId, KTop, KBot, KAdd, KKill, NKinds };
using Fx = Fixture<false>;
EF mk(Fx &F, uint64_t K, const char *N) {
  switch (K) {
  case KId:
    return EdgeIdentity<Val>{};
  case KTop:
    return F.Pr->allTopFunction();
  case KBot:
    return AllBottom<Val>{};
  case KAdd:
    return F.add(VL::any(N));
  default:
    return F.kill(VL::any(N));
  }
}
} // namespace

// ---- joining values -------------------------------------------------------
PVC_CONTRACT(join_values) {
  Fx F;
  Val A = VL::any("a"), B = VL::any("b"), C = VL::any("c");
  auto &P = *F.Pr;
  Val J = P.join(A, B);
  pv::ensures(VL::eq(J, unite(A, B)),
              "joining two label sets yields their union");
  pv::ensures(VL::eq(J, P.join(B, A)), "joining labels is commutative");
  pv::ensures(VL::eq(P.join(A, A), A), "joining labels is idempotent");
  pv::ensures(VL::eq(P.join(J, C), P.join(A, P.join(B, C))),
              "joining labels is associative");
  pv::ensures(P.topElement().isTop() && P.bottomElement().isBottom(),
              "top and bottom are the lattice's");
  pv::ensures(VL::eq(P.join(P.topElement(), A), A) &&
                  VL::eq(P.join(A, P.topElement()), A),
              "top is the least element");
  pv::ensures(P.join(P.bottomElement(), A).isBottom() &&
                  P.join(A, P.bottomElement()).isBottom(),
              "bottom is the greatest element");
  Val X = VL::any("x");
  pv::ensures(P.allTopFunction().computeTarget(X).isTop(),
              "the all-top function yields no information");
}

// ---- what the two edge functions compute ----------------------------------
PVC_CONTRACT(meaning) {
  Fx F;
  Val D = VL::any("d"), X = VL::any("x");
  pv::ensures(VL::eq(F.add(D).computeTarget(X), unite(X, D)),
              "adding labels yields the union of old and new labels");
  pv::ensures(VL::eq(F.kill(D).computeTarget(X), D),
              "replacing labels yields the replacement");
  pv::ensures(F.kill(D).isConstant(), "replacing labels is constant");
  if (F.add(D).isConstant())
    pv::ensures(VL::eq(unite(X, D), D),
                "an edge function that reports to be constant is constant");
}

// ---- sequencing -----------------------------------------------------------
namespace {
bool topOrBot(const EF &F) {
  return llvm::isa<AllTop<Val>>(F) || llvm::isa<AllBottom<Val>>(F);
}
void compose(uint64_t K1, uint64_t K2) {
  Fx Fi;
  EF F = mk(Fi, K1, "f"), S = mk(Fi, K2, "g");
  Val X = VL::any("x");
  EF H = Fi.Pr->extend(F, S);
  pv::ensures(H.isValid(), "composition yields a function");
  Val Want = S.computeTarget(F.computeTarget(X)), Got = H.computeTarget(X);
  if (!topOrBot(F))
    pv::ensures(VL::eq(Got, Want), "composition equals 'first, then second'");
  else
    pv::ensures(VL::eq(unite(Got, Want), Got),
                "composition loses no label of 'first, then second'");
  if (H.isConstant()) {
    Val Y = VL::any("y");
    pv::ensures(VL::eq(H.computeTarget(Y), Got),
                "a composition that reports to be constant is constant");
  }
  // the operands still compute what they did
  pv::ensures(VL::eq(S.computeTarget(F.computeTarget(X)), Want),
              "composition leaves its operands alone");
}
void compose3(uint64_t K1, uint64_t K2, uint64_t K3) {
  Fx Fi;
  auto &P = *Fi.Pr;
  EF F = mk(Fi, K1, "f"), G = mk(Fi, K2, "g"), H = mk(Fi, K3, "h");
  Val X = VL::any("x");
  Val A = P.extend(P.extend(F, G), H).computeTarget(X);
  pv::ensures(VL::eq(A, P.extend(F, P.extend(G, H)).computeTarget(X)),
              "composition is associative");
  pv::ensures(
      VL::eq(A, H.computeTarget(G.computeTarget(F.computeTarget(X)))),
      "composition of three equals applying them in sequence");
}
void combine(uint64_t K1, uint64_t K2) {
  Fx Fi;
  EF F = mk(Fi, K1, "f"), G = mk(Fi, K2, "g");
  Val X = VL::any("x");
  EF J = Fi.Pr->combine(F, G);
  pv::ensures(J.isValid(), "join yields a function");
  Val Got = J.computeTarget(X), FX = F.computeTarget(X),
      GX = G.computeTarget(X);
  // documented: joining with the identity keeps the other function
  bool FId = llvm::isa<EdgeIdentity<Val>>(F),
       GId = llvm::isa<EdgeIdentity<Val>>(G);
  if (FId && !llvm::isa<AllTop<Val>>(G))
    pv::ensures(VL::eq(Got, GX), "joining with the identity keeps the labels "
                                 "of the other function");
  else if (GId && !llvm::isa<AllTop<Val>>(F))
    pv::ensures(VL::eq(Got, FX), "joining with the identity keeps the labels "
                                 "of the other function");
  else
    pv::ensures(VL::eq(Got, unite(FX, GX)),
                "join yields exactly the labels of both functions");
  if (J.isConstant()) {
    Val Y = VL::any("y");
    pv::ensures(VL::eq(J.computeTarget(Y), Got),
                "a join that reports to be constant is constant");
  }
  pv::ensures(VL::eq(Fi.Pr->combine(G, F).computeTarget(X), Got),
              "join is commutative");
}
void equality(uint64_t K1, uint64_t K2) {
  Fx Fi;
  EF F = mk(Fi, K1, "f"), G = mk(Fi, K2, "g");
  bool E = F == G;
  pv::ensures(E == (G == F), "equality is symmetric");
  pv::ensures(E != (F != G), "inequality is the negation of equality");
  Val X = VL::any("x");
  if (E) {
    pv::ensures(VL::eq(F.computeTarget(X), G.computeTarget(X)),
                "equal edge functions compute equal label sets");
    pv::ensures(F.isConstant() == G.isConstant(),
                "equal edge functions agree on being constant");
  }
  EF C = F;
  pv::ensures(C == F && VL::eq(C.computeTarget(X), F.computeTarget(X)),
              "a copy equals the original");
}
} // namespace
#define K1(NAME, KIND)                                                         \
  PVC_CONTRACT(compose_##NAME) {                                               \
    compose(KIND, pv::choose(NKinds, "kind2"));                                \
  }                                                                            \
  PVC_CONTRACT(combine_##NAME) {                                               \
    combine(KIND, pv::choose(NKinds, "kind2"));                                \
  }                                                                            \
  PVC_CONTRACT(equality_##NAME) {                                              \
    equality(KIND, pv::choose(NKinds, "kind2"));                               \
  }
K1(id, KId)
K1(top, KTop)
K1(bottom, KBot)
K1(add, KAdd)
K1(kill, KKill)
PVC_CONTRACT(compose_three_add) {
  compose3(KAdd, KAdd + pv::choose(2, "k2"), KAdd + pv::choose(2, "k3"));
}
PVC_CONTRACT(compose_three_kill) {
  compose3(KKill, KAdd + pv::choose(2, "k2"), KAdd + pv::choose(2, "k3"));
}

// ---- which edge function each statement gets ------------------------------
namespace {
enum Expect { Keep, AddUser, ReplaceUser, Drop };
template <typename F> void expect(F &Fi, const EF &E, Expect Ex) {
  Val X = VL::any("x");
  Val Got = E.computeTarget(X);
  switch (Ex) {
  case Keep:
    pv::ensures(VL::eq(Got, X), "the statement leaves the labels alone");
    break;
  case AddUser:
    pv::ensures(VL::eq(Got, unite(X, Fi.UserSet)),
                "the statement adds exactly its own labels");
    break;
  case ReplaceUser:
    pv::ensures(VL::eq(Got, Fi.UserSet),
                "the statement replaces the labels by its own");
    break;
  case Drop:
    pv::ensures(VL::eq(Got, Set()), "the overwritten labels are dropped");
    break;
  }
}
template <bool Syn> void storeEF() {
  Fixture<Syn> F(true);
  auto *I32 = F.W.intTy(32);
  auto *PtrT = F.W.ptrTy(I32);
  auto *One = F.W.constInt(I32, 1);
  llvm::Value *Ptr = F.W.alloca_(I32, One), *Other = F.W.alloca_(I32, One),
              *Var = F.W.arg(I32), *Reached = F.W.alloca_(I32, One);
  bool Const = pv::flip("constant stored");
  llvm::Value *Stored = Const ? static_cast<llvm::Value *>(One) : Var;
  auto *St = F.W.inst(llvm::Instruction::Store, F.W.voidTy(), {Stored, Ptr});
  // arbitrary points-to information
  F.AA.Ptr = Ptr;
  F.AA.Vals[0] = Reached;
  F.AA.Reach[0] = true;
  F.AA.Vals[1] = Ptr;
  F.AA.Reach[1] = pv::flip("pointer reaches itself");
  // every edge the flow function has at this store
  const llvm::Value *Vs[] = {zero(), Stored, Ptr, Other, Reached, Var};
  const llvm::Value *Src = Vs[pv::choose(6, "src")];
  auto FF = F.Pr->getNormalFlowFunction(St, nullptr);
  auto Out = FF->computeTargets(Src);
  bool Hit = Src == Ptr || (!Syn && Src == Reached);
  pv::ensures(Hit == Out.empty(),
              "exactly the overwritten locations lose their labels");
  for (const auto &Dst : Out) {
    auto E = F.Pr->getNormalEdgeFunction(St, Src, nullptr, Dst);
    const llvm::Value *D = Dst.getBase();
    if (D == zero()) {
      expect(F, E, Keep);
    } else if (D == Ptr || (!Syn && D == Reached)) {
      pv::ensures(Src == Stored || (Const && Src == zero()),
                  "only the stored value flows into the written location");
      expect(F, E, Src == zero() ? ReplaceUser : AddUser);
      pv::ensures(F.AskedFor == St, "the labels are those of the store");
    } else {
      pv::ensures(D == Src, "facts unrelated to the store are passed on");
      expect(F, E, Keep);
    }
  }
  // overwritten location: y --> y
  if (Hit) {
    auto E = F.Pr->getNormalEdgeFunction(St, Src, nullptr, Src);
    expect(F, E, Syn ? ReplaceUser : Drop);
  }
}
} // namespace
PVC_CONTRACT(store_aliasing) { storeEF<false>(); }
PVC_CONTRACT(store_syntactic) { storeEF<true>(); }
PVC_CONTRACT(other_statements) {
  Fixture<false> F(true);
  auto *I32 = F.W.intTy(32);
  auto *A = F.W.arg(I32), *B = F.W.arg(I32);
  auto *Add = F.W.inst(llvm::Instruction::Add, I32, {A, B});
  auto *Al = F.W.alloca_(I32, F.W.constInt(I32, 1));
  const llvm::Instruction *St =
      pv::flip("alloca") ? static_cast<llvm::Instruction *>(Al) : Add;
  const llvm::Value *Vs[] = {zero(), A, B, Add, Al};
  const llvm::Value *Src = Vs[pv::choose(5, "src")],
                    *Dst = Vs[pv::choose(5, "dst")];
  auto E = F.Pr->getNormalEdgeFunction(St, Src, nullptr, Dst);
  if (Dst == St && Src != St) {
    expect(F, E, Src == zero() ? ReplaceUser : AddUser);
    pv::ensures(F.AskedFor == St, "the labels are those of the statement");
  } else {
    expect(F, E, Keep);
  }
  pv::ensures(!F.Pr->getSummaryEdgeFunction(St, Src, St, Dst).isValid(),
              "no summaries are used");
}
PVC_CONTRACT(calls) {
  Fixture<false> F(true);
  pv::replace(&psr::isHeapAllocatingFunction, &fakeHeap);
  pv::replace(&detail::LLVMBasedCFGImpl<LLVMBasedCFG>::isHeapAllocatingFunctionImpl, &fakeHeapImpl);
  pv::replace(static_cast<bool (llvm::CallBase::*)(
                  unsigned, llvm::Attribute::AttrKind) const>(
                  &llvm::CallBase::paramHasAttr),
              &fakeParamAttr);
  pv_note_bounded_("calls with two arguments and at most two callees");
  auto *I32 = F.W.intTy(32);
  auto *PtrT = F.W.ptrTy(I32);
  llvm::Type *Ps[2] = {PtrT, I32};
  auto *FT = F.W.fnTy(I32, Ps, 2);
  auto *Fn = F.W.func(FT, 0, false), *Fn2 = F.W.func(FT, 0, false);
  HeapFn = pv::flip("heap") ? Fn : nullptr;
  llvm::Value *Slot = F.W.alloca_(I32, F.W.constInt(I32, 1));
  llvm::Value *Args[2] = {Slot, pv::flip("same arg")
                                    ? Slot
                                    : static_cast<llvm::Value *>(F.W.arg(I32))};
  auto *Call = F.W.call(FT, Fn, Args, 2);
  SRetCall = pv::flip("sret") ? Call : nullptr;
  auto *Other = F.W.arg(I32);
  const llvm::Value *Vs[] = {zero(),     Args[0], Args[1],
                             Fn->getArg(0), Other,  Call};
  const llvm::Value *Src = Vs[pv::choose(6, "src")],
                    *Dst = Vs[pv::choose(6, "dst")];
  switch (pv::choose(3, "kind of edge")) {
  case 0: {
    auto E = F.Pr->getCallEdgeFunction(Call, Src, Fn, Dst);
    if (SRetCall && Src == zero() && Dst == Fn->getArg(0))
      expect(F, E, Drop);
    else if (!(SRetCall && Src == zero() && Dst == Args[0]))
      expect(F, E, Keep);
    break;
  }
  case 1: {
    auto *CD = F.W.constInt(I32, 7);
    bool Const = pv::flip("constant returned");
    auto *Ret = F.W.inst(llvm::Instruction::Ret, F.W.voidTy(),
                         {Const ? static_cast<llvm::Value *>(CD) : Other});
    auto E = F.Pr->getReturnEdgeFunction(Call, Fn, Ret, Src, nullptr, Dst);
    if (Const && Src == zero() && Dst == Call) {
      expect(F, E, ReplaceUser);
      pv::ensures(F.AskedFor == Ret, "the labels are those of the return");
    } else {
      expect(F, E, Keep);
    }
    break;
  }
  default: {
    const llvm::Function *Cs[2] = {Fn, Fn2};
    unsigned N = pv::choose(3, "callees");
    auto E = F.Pr->getCallToRetEdgeFunction(
        Call, Src, nullptr, Dst, llvm::ArrayRef<const llvm::Function *>(Cs, N));
    if (N == 1 && HeapFn == Fn && Src == zero() && Dst == Call)
      expect(F, E, ReplaceUser);
    else if (Src == Dst && (Src == Args[0] || Src == Args[1]))
      expect(F, E, AddUser);
    else
      expect(F, E, Keep);
    pv::ensures(F.AskedFor == Call, "the labels are those of the call");
  }
  }
}
