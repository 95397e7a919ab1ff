// Contracts: linear constant analysis
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp)
#include "pv/lattices.h"
#include "pv/efspec.h"
#include "pv/llvmir.h"

#include "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"

using namespace psr;
using pv::Flat;
using pv::Lat;
using llvm::Instruction;

namespace {
alignas(16) char ZeroBuf[256];
const LLVMZeroValue *fakeZero() {
  return reinterpret_cast<const LLVMZeroValue *>(ZeroBuf);
}
const llvm::Value *zero() { return LLVMZeroValue::getInstance(); }
void setup() {
  reinterpret_cast<pv::ir::RawValue *>(ZeroBuf)->SubclassID =
      llvm::Value::GlobalVariableVal;
  pv::replace(&LLVMZeroValue::getInstance, &fakeZero);
  pv_note_assumption_("LLVMZeroValue::getInstance returns one fixed global "
                      "variable object");
}

int64_t sext(uint64_t V, unsigned W) {
  return int64_t(V << (64 - W)) >> (64 - W);
}
uint64_t zext(uint64_t V, unsigned W) {
  return W == 64 ? V : V & ((uint64_t(1) << W) - 1);
}
/// The W-bit machine operation on W-bit patterns; Def = false: undefined.
struct MRes {
  bool Def;
  int64_t Val;
};
MRes machine(unsigned Op, int64_t A, int64_t B, unsigned W) {
  uint64_t UA = zext(A, W), UB = zext(B, W);
  int64_t Min = sext(uint64_t(1) << (W - 1), W);
  bool Ovf = pv_and_(A == Min, B == -1);
  switch (Op) {
  case Instruction::Add:
    return {true, sext(UA + UB, W)};
  case Instruction::Sub:
    return {true, sext(UA - UB, W)};
  case Instruction::Mul:
    return {true, sext(UA * UB, W)};
  case Instruction::UDiv:
    if (UB == 0)
      return {false, 0};
    return {true, sext(UA / UB, W)};
  case Instruction::URem:
    if (UB == 0)
      return {false, 0};
    return {true, sext(UA % UB, W)};
  case Instruction::SDiv:
    if (pv_or_(B == 0, Ovf))
      return {false, 0};
    return {true, A / B};
  case Instruction::SRem:
    if (pv_or_(B == 0, Ovf))
      return {false, 0};
    return {true, A % B};
  case Instruction::And:
    return {true, sext(UA & UB, W)};
  case Instruction::Or:
    return {true, sext(UA | UB, W)};
  case Instruction::Xor:
    return {true, sext(UA ^ UB, W)};
  case Instruction::Shl:
    if (UB >= W)
      return {false, 0};
    return {true, sext(UA << UB, W)};
  case Instruction::LShr:
    if (UB >= W)
      return {false, 0};
    return {true, sext(UA >> UB, W)};
  case Instruction::AShr:
    if (UB >= W)
      return {false, 0};
    return {true, A >> UB};
  default:
    return {false, 0};
  }
}
constexpr unsigned Ops[] = {
    Instruction::Add,  Instruction::Sub,  Instruction::Mul, Instruction::UDiv,
    Instruction::SDiv, Instruction::URem, Instruction::SRem, Instruction::Shl,
    Instruction::LShr, Instruction::AShr, Instruction::And, Instruction::Or,
    Instruction::Xor};

struct Problem {
  char IRDBBuf[64] = {};
  char ICFBuf[64] = {};
  IDELinearConstantAnalysis P;
  Problem()
      : P(reinterpret_cast<const LLVMProjectIRDB *>(IRDBBuf),
          reinterpret_cast<const LLVMBasedICFG *>(ICFBuf), {}) {}
};

/// A value the analysis may report for a W-bit integer: its sign extension.
Flat anyInt(const char *N, unsigned W) {
  uint64_t T = pv::choose(3, N);
  return Lat<Flat>::make(T, T == 1 ? sext(pv::any<uint64_t>(N), W) : 0);
}

/// Which operand is the analysed one: 0 = left, 1 = right, 2 = none (both
/// constants, generated from zero)
void binopSpec(unsigned Op, unsigned W, unsigned Side) {
  setup();
  pv::ir::World Wd;
  Problem Pr;
  auto *Ty = Wd.intTy(W);
  uint64_t CB = pv::any<uint64_t>("const");
  uint64_t CA = Side == 2 ? pv::any<uint64_t>("const2") : 0;
  llvm::Value *X = Wd.arg(Ty);
  llvm::Value *C = Wd.constInt(Ty, CB);
  llvm::Value *D = Wd.constInt(Ty, CA);
  llvm::Value *L = Side == 0 ? X : C, *R = Side == 1 ? X : Side == 0 ? C : D;
  auto *I = Wd.inst(Op, Ty, {L, R});
  const llvm::Value *Src = Side == 2 ? zero() : X;
  auto EF = Pr.P.getNormalEdgeFunction(I, Src, I, I);
  Flat In = Side == 2 ? Flat(Bottom{}) : anyInt("in", W);
  Flat Out = EF.computeTarget(In);
  if (Side != 2 && Lat<Flat>::tag(In) != 1) {
    pv::ensures(Lat<Flat>::tag(Out) != 1,
                "no constant is invented for an unknown operand");
    if (Lat<Flat>::tag(In) == 2)
      pv::ensures(Lat<Flat>::tag(Out) == 2, "unknown stays unknown");
    return;
  }
  int64_t V = Side == 2 ? 0 : Lat<Flat>::val(In);
  int64_t A = Side == 0 ? V : sext(CB, W);
  int64_t B = Side == 1 ? V : Side == 0 ? sext(CB, W) : sext(CA, W);
  MRes M = machine(Op, A, B, W);
  pv::ensures(Lat<Flat>::tag(Out) != 0, "a defined operand yields a result");
  if (Lat<Flat>::tag(Out) == 1) {
    pv::cover("a concrete constant is reported");
    pv::ensures(M.Def, "no constant is reported for an undefined operation");
    pv::ensures(Lat<Flat>::val(Out) == M.Val,
                "a reported constant is the machine result");
  } else if (W == 64 || Op == Instruction::And || Op == Instruction::Or ||
             Op == Instruction::Xor) {
    if (Op == Instruction::And || Op == Instruction::Or ||
        Op == Instruction::Xor)
      pv::ensures(false, "bitwise operations always yield a constant");
  }
}
/// Operands of a 128-bit type, given as sign-extended 64-bit values: the
/// machine result if it fits into 64 bits again.
MRes machineWide(unsigned Op, int64_t A, int64_t B) {
  int64_t R = 0;
  switch (Op) {
  case Instruction::Add:
    return {!__builtin_add_overflow(A, B, &R), R};
  case Instruction::Sub:
    return {!__builtin_sub_overflow(A, B, &R), R};
  case Instruction::UDiv:
  case Instruction::URem: {
    bool Rem = Op == Instruction::URem;
    if (B == 0)
      return {false, 0};
    if (A < 0 && B > 0) // beyond 64 bits
      return {false, 0};
    if (A >= 0 && B > 0)
      return {true, Rem ? A % B : A / B};
    bool Once = A < 0 && A >= B;
    return {true, Rem ? (Once ? A - B : A) : int64_t(Once)};
  }
  case Instruction::SDiv:
  case Instruction::SRem:
    return machine(Op, A, B, 64);
  case Instruction::And:
    return {true, A & B};
  case Instruction::Or:
    return {true, A | B};
  case Instruction::Xor:
    return {true, A ^ B};
  default:
    return {false, 0};
  }
}
void binopWideSpec(unsigned Op, bool Left) {
  setup();
  pv::ir::World Wd;
  Problem Pr;
  auto *Ty = Wd.intTy(128);
  int64_t CV = pv::any<int64_t>("const");
  uint64_t Hi = pv::any<uint64_t>("const, upper half");
  bool Fits = Hi == uint64_t(CV >> 63);
  llvm::Value *X = Wd.arg(Ty), *C = Wd.constWide(Ty, CV, Hi);
  auto *I = Wd.inst(Op, Ty, {Left ? X : C, Left ? C : X});
  auto EF = Pr.P.getNormalEdgeFunction(I, X, I, I);
  int64_t V = pv::any<int64_t>("in");
  Flat Out = EF.computeTarget(Flat(V));
  pv::ensures(Lat<Flat>::tag(Out) != 0, "a defined operand yields a result");
  if (Lat<Flat>::tag(Out) != 1)
    return;
  pv::cover("a concrete constant is reported");
  pv::ensures(Fits, "constants beyond 64 bits are not truncated");
  MRes M = Left ? machineWide(Op, V, CV) : machineWide(Op, CV, V);
  pv::ensures(M.Def, "no constant is reported that does not fit");
  pv::ensures(Lat<Flat>::val(Out) == M.Val,
              "a reported constant is the machine result");
}
/// small operands: the plain arithmetic result is reported (no precision loss)
void precisionSpec(unsigned Op, unsigned W) {
  setup();
  int64_t A = pv::any<int16_t>("a"), B = pv::any<int16_t>("b");
  pv::assume(pv_and_(A >= 0, B > 0));
  pv::ir::World Wd;
  Problem Pr;
  auto *Ty = Wd.intTy(W);
  llvm::Value *X = Wd.arg(Ty), *C = Wd.constInt(Ty, B);
  auto *I = Wd.inst(Op, Ty, {X, C});
  auto EF = Pr.P.getNormalEdgeFunction(I, X, I, I);
  Flat Out = EF.computeTarget(Flat(A));
  pv::ensures(Lat<Flat>::tag(Out) == 1,
              "a representable result of small operands is reported");
}
} // namespace

#define B(OPN, W)                                                              \
  PVC_CONTRACT(binop_##OPN##_left_##W) { binopSpec(Instruction::OPN, W, 0); }  \
  PVC_CONTRACT(binop_##OPN##_right_##W) { binopSpec(Instruction::OPN, W, 1); } \
  PVC_CONTRACT(binop_##OPN##_const_##W) { binopSpec(Instruction::OPN, W, 2); }
#define BB(OPN) B(OPN, 64) B(OPN, 32) B(OPN, 8)
BB(Add)
BB(Sub)
B(Mul, 64) B(Mul, 16) B(Mul, 8)
BB(UDiv)
BB(SDiv)
BB(URem)
BB(SRem)
BB(And)
BB(Or)
BB(Xor)
#define W(OPN)                                                                 \
  PVC_CONTRACT(binop_##OPN##_128) {                                            \
    binopWideSpec(Instruction::OPN, pv::flip("side"));                         \
  }
W(Add) W(Sub) W(UDiv) W(SDiv) W(URem) W(SRem) W(And) W(Or) W(Xor)
#define P(OPN) PVC_CONTRACT(precision_##OPN) { precisionSpec(Instruction::OPN, 64); }
P(Add) P(Sub) P(Mul) P(UDiv) P(SDiv) P(URem) P(SRem) P(And) P(Or) P(Xor)

PVC_CONTRACT(binop_unsupported) {
  constexpr unsigned U[] = {Instruction::Shl, Instruction::LShr,
                            Instruction::AShr};
  binopSpec(U[pv::choose(3, "op")], pv::flip("w") ? 64 : 32,
            unsigned(pv::choose(2, "side")));
}

// ---- the algebra of the analysis' own edge functions ----------------------
namespace {
struct Ir {
  pv::ir::World W;
  llvm::IntegerType *Ty = W.intTy(64);
  llvm::Value *X = W.arg(Ty);
  llvm::Value *C = W.constInt(Ty, pv::any<uint64_t>("c"));
  llvm::Value *D = W.constInt(Ty, pv::any<uint64_t>("d"));
};
Ir *TheIr;
/// The shape of the first binary edge function (one contract per shape)
int FirstShape = -1;
struct LCA {
  enum { Id, Top_, Bot_, Const, Gen, Bin, Comp, Any, NKinds };
  static EdgeFunction<Flat> bin(const char *N) {
    // Add/Mul/SDiv: one representative per overflow treatment; the operator
    // itself only reaches executeBinOperation, specified by binop_*
    constexpr unsigned O[] = {Instruction::Sub, Instruction::And};
    unsigned Op = O[pv::choose(2, N)];
    unsigned Shape =
        FirstShape >= 0 ? unsigned(FirstShape) : unsigned(pv::choose(4, N));
    FirstShape = -1;
    switch (Shape) {
    case 0:
      return lca::BinOp(Op, TheIr->X, TheIr->C, TheIr->X);
    case 1:
      return lca::BinOp(Op, TheIr->C, TheIr->X, TheIr->X);
    case 2:
      return lca::BinOp(Op, TheIr->X, TheIr->D, TheIr->X);
    default:
      return lca::BinOp(Op, TheIr->C, TheIr->D, zero());
    }
  }
  static EdgeFunction<Flat> make(uint64_t K, const char *N) {
    switch (K) {
    case Id:
      return EdgeIdentity<Flat>{};
    case Top_:
      return AllTop<Flat>{};
    case Bot_:
      return AllBottom<Flat>{};
    case Const:
      return ConstantEdgeFunction<Flat>{pv::any<int64_t>(N)};
    case Gen:
      return lca::GenConstant{{pv::any<int64_t>(N)}};
    case Bin:
      return bin(N);
    case Comp:
      return lca::LCAEdgeFunctionComposer{
          {pv::AnyEF<Flat>{pv::any<uint32_t>(N)},
           pv::AnyEF<Flat>{pv::any<uint32_t>(N)}}};
    default:
      return pv::AnyEF<Flat>{pv::any<uint32_t>(N)};
    }
  }
};
using S = pv::EFSpec<Flat, LCA>;
struct World {
  Ir I;
  World(int Shape = -1) {
    setup();
    TheIr = &I;
    FirstShape = Shape;
  }
};
} // namespace
/// Second operand: any kind but a binary operation / a binary operation
unsigned Simple(const char *N) {
  uint64_t I = pv::choose(LCA::NKinds - 1, N);
  return unsigned(I < LCA::Bin ? I : I + 1);
}
#define K(NAME, KIND, SHAPE)                                                   \
  PVC_CONTRACT(alg_compose_##NAME) {                                           \
    World TheWorld{SHAPE};                                                     \
    S::compose(LCA::KIND, Simple("kind2"));                                    \
  }                                                                            \
  PVC_CONTRACT(alg_join_##NAME) {                                              \
    World TheWorld{SHAPE};                                                     \
    S::join(LCA::KIND, Simple("kind2"));                                       \
  }                                                                            \
  PVC_CONTRACT(alg_compose_##NAME##_bin) {                                     \
    World TheWorld{SHAPE};                                                     \
    S::compose(LCA::KIND, LCA::Bin);                                           \
  }                                                                            \
  PVC_CONTRACT(alg_join_##NAME##_bin) {                                        \
    World TheWorld{SHAPE};                                                     \
    S::join(LCA::KIND, LCA::Bin);                                              \
  }                                                                            \
  PVC_CONTRACT(alg_equality_##NAME) {                                          \
    World TheWorld{SHAPE};                                                     \
    S::equality(LCA::KIND, pv::choose(LCA::NKinds, "kind2"));                  \
  }
K(gen, Gen, -1)
K(bin_lc, Bin, 0)
K(bin_rc, Bin, 1)
K(bin_ld, Bin, 2)
K(bin_cc, Bin, 3)
K(comp, Comp, -1)
PVC_CONTRACT(alg_idempotent) {
  World W;
  S::idempotent(pv::flip("k") ? LCA::Gen : LCA::Bin);
}
PVC_CONTRACT(alg_join_generic_with_own) {
  World W;
  S::join(pv::choose(LCA::Const + 1, "k1"), LCA::Gen + pv::choose(3, "k2"));
}
PVC_CONTRACT(alg_compose_generic_with_own) {
  World W;
  S::compose(pv::choose(LCA::Const + 1, "k1"), LCA::Gen + pv::choose(3, "k2"));
}

// ---- transfer: edge functions and flow functions per statement -----------
namespace {
bool has(const std::set<const llvm::Value *> &S, const llvm::Value *V) {
  return S.count(V) != 0;
}
using Pool = llvm::SmallVector<const llvm::Value *, 8>;
/// The facts that survive/are generated are exactly Want.
template <typename FF>
void flowIs(FF &&F, const llvm::Value *Src,
            std::initializer_list<const llvm::Value *> Want, const char *Lbl) {
  std::set<const llvm::Value *> Got = F->computeTargets(Src);
  pv::ensures(Got.size() == Want.size(), Lbl);
  for (const auto *V : Want)
    pv::ensures(has(Got, V), Lbl);
}
} // namespace
/// store i64 <const>, p : p gets the constant, generated from zero
PVC_CONTRACT(store_constant) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(64);
  auto *PT = W.ptrTy(Ty);
  llvm::Value *P = W.arg(PT), *Q = W.arg(PT), *X = W.arg(Ty);
  uint64_t CV = pv::any<uint64_t>("c");
  auto *C = W.constInt(Ty, CV);
  auto *St = W.inst(Instruction::Store, W.voidTy(), {C, P});
  auto FF = Pr.P.getNormalFlowFunction(St, nullptr);
  flowIs(FF, zero(), {zero(), P}, "storing a constant generates the pointer");
  flowIs(FF, P, {}, "the overwritten pointer is killed");
  flowIs(FF, Q, {Q}, "other facts survive a store");
  flowIs(FF, X, {X}, "other facts survive a store");
  auto EF = Pr.P.getNormalEdgeFunction(St, zero(), nullptr, P);
  Flat In = Lat<Flat>::any("in");
  Flat Out = EF.computeTarget(In);
  pv::ensures(Lat<Flat>::tag(Out) == 1 && Lat<Flat>::val(Out) == int64_t(CV),
              "storing a constant yields that constant");
  for (const llvm::Value *V : {(const llvm::Value *)Q, (const llvm::Value *)X,
                               (const llvm::Value *)zero()}) {
    auto I = Pr.P.getNormalEdgeFunction(St, V, nullptr, V);
    pv::ensures(Lat<Flat>::eq(I.computeTarget(In), In),
                "untouched facts keep their value");
  }
}
/// store i128 c, p : no truncated constant
PVC_CONTRACT(store_wide_constant) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(128);
  llvm::Value *P = W.arg(W.ptrTy(Ty));
  int64_t Lo = pv::any<int64_t>("c");
  uint64_t Hi = pv::any<uint64_t>("c, upper half");
  auto *St = W.inst(Instruction::Store, W.voidTy(), {W.constWide(Ty, Lo, Hi), P});
  Flat Out = Pr.P.getNormalEdgeFunction(St, zero(), nullptr, P)
                 .computeTarget(Lat<Flat>::any("in"));
  if (Hi == uint64_t(Lo >> 63))
    pv::ensures(Lat<Flat>::tag(Out) == 1 && Lat<Flat>::val(Out) == Lo,
                "storing a constant yields that constant");
  else
    pv::ensures(Lat<Flat>::tag(Out) == 2,
                "constants beyond 64 bits are not truncated");
}
/// store i64 x, p : p takes the value of x
PVC_CONTRACT(store_variable) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(64);
  auto *PT = W.ptrTy(Ty);
  llvm::Value *P = W.arg(PT), *Q = W.arg(PT), *X = W.arg(Ty);
  auto *St = W.inst(Instruction::Store, W.voidTy(), {X, P});
  auto FF = Pr.P.getNormalFlowFunction(St, nullptr);
  flowIs(FF, zero(), {zero()}, "zero is kept and generates nothing");
  flowIs(FF, P, {}, "the overwritten pointer is killed");
  flowIs(FF, X, {X, P}, "the stored value flows into the pointer");
  flowIs(FF, Q, {Q}, "other facts survive a store");
  Flat In = Lat<Flat>::any("in");
  for (auto [A, B] :
       {std::pair<const llvm::Value *, const llvm::Value *>{X, P}, {X, X}, {Q, Q}, {zero(), zero()}}) {
    auto I = Pr.P.getNormalEdgeFunction(St, A, nullptr, B);
    pv::ensures(Lat<Flat>::eq(I.computeTarget(In), In),
                "a stored value keeps its value");
  }
}
PVC_CONTRACT(load) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(32);
  auto *PT = W.ptrTy(Ty);
  llvm::Value *P = W.arg(PT), *Q = W.arg(PT);
  auto *Ld = W.inst(Instruction::Load, Ty, {P});
  auto FF = Pr.P.getNormalFlowFunction(Ld, nullptr);
  flowIs(FF, zero(), {zero()}, "zero is kept and generates nothing");
  flowIs(FF, P, {P, Ld}, "the loaded value comes from the pointer");
  flowIs(FF, Q, {Q}, "other facts survive a load");
  Flat In = Lat<Flat>::any("in");
  for (auto [A, B] :
       {std::pair<const llvm::Value *, const llvm::Value *>{P, Ld}, {P, P}, {Q, Q}, {zero(), zero()}}) {
    auto I = Pr.P.getNormalEdgeFunction(Ld, A, nullptr, B);
    pv::ensures(Lat<Flat>::eq(I.computeTarget(In), In),
                "a loaded value keeps its value");
  }
}
PVC_CONTRACT(alloca_generates_unknown) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(32);
  llvm::Value *Q = W.arg(Ty);
  auto *A = W.alloca_(Ty, W.constInt(Ty, 1));
  auto FF = Pr.P.getNormalFlowFunction(A, nullptr);
  flowIs(FF, zero(), {zero(), A}, "an allocation is generated from zero");
  flowIs(FF, Q, {Q}, "other facts survive an allocation");
  Flat In = Lat<Flat>::any("in");
  auto EF = Pr.P.getNormalEdgeFunction(A, zero(), nullptr, A);
  pv::ensures(Lat<Flat>::tag(EF.computeTarget(In)) == 2,
              "uninitialised memory has no constant");
}
PVC_CONTRACT(binop_flow) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(32);
  llvm::Value *X = W.arg(Ty), *Y = W.arg(Ty), *Z = W.arg(Ty);
  llvm::Value *C = W.constInt(Ty, pv::any<uint64_t>("c")),
              *D = W.constInt(Ty, pv::any<uint64_t>("d"));
  unsigned Op = Ops[pv::choose(std::size(Ops), "op")];
  Flat In = Lat<Flat>::any("in");
  { // x op y: not linear, must become unknown
    auto *I = W.inst(Op, Ty, {X, Y});
    auto FF = Pr.P.getNormalFlowFunction(I, nullptr);
    flowIs(FF, X, {X, I}, "the result depends on the left operand");
    flowIs(FF, Y, {Y, I}, "the result depends on the right operand");
    flowIs(FF, Z, {Z}, "unrelated facts are kept");
    flowIs(FF, zero(), {zero()}, "zero generates no non-constant result");
    pv::ensures(Lat<Flat>::tag(Pr.P.getNormalEdgeFunction(I, X, nullptr, I)
                                   .computeTarget(In)) == 2 &&
                    Lat<Flat>::tag(Pr.P.getNormalEdgeFunction(I, Y, nullptr, I)
                                       .computeTarget(In)) == 2,
                "a non-linear result is unknown");
    auto K = Pr.P.getNormalEdgeFunction(I, X, nullptr, X);
    pv::ensures(Lat<Flat>::eq(K.computeTarget(In), In),
                "operands keep their value");
  }
  { // constants
    auto *I = W.inst(Op, Ty, {C, D});
    auto FF = Pr.P.getNormalFlowFunction(I, nullptr);
    flowIs(FF, zero(), {zero(), I}, "a constant result is generated from zero");
    flowIs(FF, Z, {Z}, "unrelated facts are kept");
  }
  { // x op c, c op x
    bool Sw = pv::flip("swap");
    auto *I = W.inst(Op, Ty, {Sw ? C : X, Sw ? X : C});
    auto FF = Pr.P.getNormalFlowFunction(I, nullptr);
    flowIs(FF, zero(), {zero()}, "zero generates no non-constant result");
    flowIs(FF, X, {X, I}, "the result depends on the operand");
    flowIs(FF, Z, {Z}, "unrelated facts are kept");
  }
}
/// call f(args): constants are passed as constants, variables as themselves
PVC_CONTRACT(call_passes_values) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(64);
  llvm::Type *Ps[2] = {Ty, Ty};
  auto *F = W.func(W.fnTy(Ty, Ps, 2), 0, false);
  uint64_t CV = pv::any<uint64_t>("c");
  bool First = pv::flip("first");
  llvm::Value *X = W.arg(Ty), *C = W.constInt(Ty, CV);
  llvm::Value *As[2] = {First ? C : X, First ? X : C};
  auto *CS = W.call(F->getFunctionType(), F, As, 2);
  W.append(&W.func(F->getFunctionType(), 0, false)->getEntryBlock(), CS);
  const llvm::Value *FC = F->getArg(First ? 0 : 1), *FX = F->getArg(First ? 1 : 0);
  Flat In = Lat<Flat>::any("in");
  auto EF = Pr.P.getCallEdgeFunction(CS, zero(), F, FC);
  Flat Out = EF.computeTarget(In);
  pv::ensures(Lat<Flat>::tag(Out) == 1 && Lat<Flat>::val(Out) == int64_t(CV),
              "a constant argument reaches the formal parameter");
  auto EX = Pr.P.getCallEdgeFunction(CS, X, F, FX);
  pv::ensures(Lat<Flat>::eq(EX.computeTarget(In), In),
              "a variable argument keeps its value");
  auto EZ = Pr.P.getCallEdgeFunction(CS, zero(), F, zero());
  pv::ensures(Lat<Flat>::eq(EZ.computeTarget(In), In), "zero keeps its value");
  auto FF = Pr.P.getCallFlowFunction(CS, F);
  flowIs(FF, X, {FX}, "an actual maps to its formal");
  flowIs(FF, zero(), {zero(), FC}, "zero generates constant arguments");
}
PVC_CONTRACT(return_passes_values) {
  setup();
  pv::ir::World W;
  Problem Pr;
  auto *Ty = W.intTy(64);
  auto *PT = W.ptrTy(Ty);
  llvm::Type *Ps[2] = {PT, Ty};
  auto *F = W.func(W.fnTy(Ty, Ps, 2), 0, false);
  llvm::Value *P = W.arg(PT), *X = W.arg(Ty), *Y = W.arg(Ty);
  llvm::Value *As[2] = {P, X};
  auto *CS = W.call(F->getFunctionType(), F, As, 2);
  W.append(&W.func(F->getFunctionType(), 0, false)->getEntryBlock(), CS);
  uint64_t CV = pv::any<uint64_t>("c");
  Flat In = Lat<Flat>::any("in");
  if (pv::flip("const")) {
    auto *R = W.inst(Instruction::Ret, W.voidTy(), {W.constInt(Ty, CV)});
    W.append(&F->getEntryBlock(), R);
    auto FF = Pr.P.getRetFlowFunction(CS, F, R, nullptr);
    flowIs(FF, zero(), {zero(), CS}, "a returned constant is generated");
    flowIs(FF, F->getArg(0), {P}, "a pointer parameter maps back");
    flowIs(FF, F->getArg(1), {}, "a by-value parameter does not map back");
    auto EF = Pr.P.getReturnEdgeFunction(CS, F, R, zero(), nullptr, CS);
    Flat Out = EF.computeTarget(In);
    pv::ensures(Lat<Flat>::tag(Out) == 1 && Lat<Flat>::val(Out) == int64_t(CV),
                "a returned constant reaches the call site");
  } else {
    auto *R = W.inst(Instruction::Ret, W.voidTy(), {Y});
    W.append(&F->getEntryBlock(), R);
    auto FF = Pr.P.getRetFlowFunction(CS, F, R, nullptr);
    flowIs(FF, zero(), {zero()}, "zero is kept");
    flowIs(FF, Y, {CS}, "the returned value maps to the call site");
    auto EF = Pr.P.getReturnEdgeFunction(CS, F, R, Y, nullptr, CS);
    pv::ensures(Lat<Flat>::eq(EF.computeTarget(In), In),
                "a returned value keeps its value");
    auto EP = Pr.P.getReturnEdgeFunction(CS, F, R, F->getArg(0), nullptr, P);
    pv::ensures(Lat<Flat>::eq(EP.computeTarget(In), In),
                "a pointer parameter keeps its value");
  }
  auto EC = Pr.P.getCallToRetEdgeFunction(CS, X, nullptr, X, {});
  pv::ensures(Lat<Flat>::eq(EC.computeTarget(In), In),
              "facts alongside a call keep their value");
}
/// {result, overflow} = llvm.<op>.with.overflow(a, b), llvm.<op>.sat(a, b)
namespace {
void intrinsicSpec(unsigned IID, unsigned W, bool Left) {
  setup();
  pv::ir::World Wd;
  Problem Pr;
  auto *Ty = Wd.intTy(W);
  llvm::Type *Ps[2] = {Ty, Ty};
  bool Sat = IID == llvm::Intrinsic::uadd_sat ||
             IID == llvm::Intrinsic::sadd_sat ||
             IID == llvm::Intrinsic::usub_sat ||
             IID == llvm::Intrinsic::ssub_sat;
  llvm::Type *RT = Ty;
  if (!Sat)
    RT = Wd.structTy({Ty, Wd.intTy(1)});
  auto *F = Wd.func(Wd.fnTy(RT, Ps, 2), IID);
  uint64_t CV = pv::any<uint64_t>("c");
  llvm::Value *X = Wd.arg(Ty), *Z = Wd.arg(Ty), *C = Wd.constInt(Ty, CV);
  llvm::Value *As[2] = {Left ? X : C, Left ? C : X};
  auto *CS = Wd.call(F->getFunctionType(), F, As, 2);
  auto FF = Pr.P.getSummaryFlowFunction(CS, F);
  pv::ensures(FF != nullptr, "the intrinsic is summarised");
  flowIs(FF, X, {X, CS}, "the result depends on the operand");
  flowIs(FF, Z, {Z}, "unrelated facts are kept");
  int64_t V = sext(pv::any<uint64_t>("in"), W);
  auto EF = Pr.P.getSummaryEdgeFunction(CS, X, nullptr, CS);
  Flat Out = EF.computeTarget(Flat(V));
  pv::ensures(Lat<Flat>::tag(Out) != 0, "a defined operand yields a result");
  if (Lat<Flat>::tag(Out) != 1)
    return;
  int64_t A = Left ? V : sext(CV, W), B = Left ? sext(CV, W) : V;
  uint64_t UA = zext(A, W), UB = zext(B, W);
  uint64_t Max = W == 64 ? ~uint64_t(0) : (uint64_t(1) << W) - 1;
  int64_t Want;
  switch (IID) {
  case llvm::Intrinsic::uadd_sat:
    Want = sext(pv_ite_(UA > Max - UB, Max, UA + UB), W);
    break;
  case llvm::Intrinsic::usub_sat:
    Want = sext(pv_ite_(UA < UB, 0, UA - UB), W);
    break;
  case llvm::Intrinsic::sadd_sat: {
    int64_t R = A + B; // W < 64
    int64_t Hi = int64_t(Max >> 1), Lo = -Hi - 1;
    Want = pv_ite_(R > Hi, Hi, pv_ite_(R < Lo, Lo, R));
    break;
  }
  case llvm::Intrinsic::ssub_sat: {
    int64_t R = A - B;
    int64_t Hi = int64_t(Max >> 1), Lo = -Hi - 1;
    Want = pv_ite_(R > Hi, Hi, pv_ite_(R < Lo, Lo, R));
    break;
  }
  case llvm::Intrinsic::uadd_with_overflow:
  case llvm::Intrinsic::sadd_with_overflow:
    Want = sext(UA + UB, W);
    break;
  case llvm::Intrinsic::usub_with_overflow:
  case llvm::Intrinsic::ssub_with_overflow:
    Want = sext(UA - UB, W);
    break;
  default:
    Want = sext(UA * UB, W);
  }
  pv::ensures(Lat<Flat>::val(Out) == Want,
              "a reported intrinsic result is the machine result");
}
} // namespace
#define IN(NAME)                                                               \
  PVC_CONTRACT(intrinsic_##NAME) {                                             \
    intrinsicSpec(llvm::Intrinsic::NAME, 32, pv::flip("left"));                \
  }
IN(uadd_with_overflow)
IN(sadd_with_overflow)
IN(usub_with_overflow)
IN(ssub_with_overflow)
IN(uadd_sat)
IN(sadd_sat)
IN(usub_sat)
IN(ssub_sat)
PVC_CONTRACT(intrinsic_mul_with_overflow) {
  intrinsicSpec(pv::flip("s") ? llvm::Intrinsic::smul_with_overflow
                              : llvm::Intrinsic::umul_with_overflow,
                8, pv::flip("left"));
}
