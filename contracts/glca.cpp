// Contracts: constants and bounded constant sets of the generalized linear
// constant analysis
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp,
// EdgeValueSet.cpp, BinaryEdgeFunction.cpp, TypecastEdgeFunction.cpp, ...)
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/BinaryEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValueSet.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/GenConstant.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/LCAEdgeFunctionComposer.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/TypecastEdgeFunction.h"

#include <string>

using namespace psr;
using namespace psr::glca;
using Ops = llvm::BinaryOperator::BinaryOps;
namespace {
constexpr unsigned Widths[] = {1, 8, 16, 32, 64};
unsigned width(const char *N = "width") { return Widths[pv::choose(5, N)]; }
uint64_t low(uint64_t V, unsigned W) {
  return W == 64 ? V : V & ((uint64_t(1) << W) - 1);
}
int64_t sgn(uint64_t V, unsigned W) {
  return int64_t(V << (64 - W)) >> (64 - W);
}
/// An arbitrary W-bit pattern.
uint64_t bits(unsigned W, const char *N) {
  return low(pv::any<uint64_t>(N), W);
}
EdgeValue mk(uint64_t V, unsigned W) { return EdgeValue(llvm::APInt(W, V)); }
constexpr double Reps[] = {0.0,  -0.0, 1.0,   -1.0,  0.5,    1.5,
                           2.75, -2.75, 100.0, 7.0, 1048576.25, -4.0};
constexpr unsigned NReps = sizeof(Reps) / sizeof(*Reps);
double rep(const char *N) { return Reps[pv::choose(NReps, N)]; }
constexpr const char *Strs[] = {"", "a", "b"};
/// Does V represent the W-bit pattern Bits?
bool isInt(const EdgeValue &V, uint64_t Bits, unsigned W) {
  int64_t Got = 0;
  if (V.getKind() != EdgeValue::Integer || !V.tryGetInt(Got))
    return false;
  return Got == sgn(Bits, W);
}
/// ... and is it W bits wide (operations on it need a W-bit operand)?
bool isIntW(const EdgeValue &V, uint64_t Bits, unsigned W) {
  if (V.getKind() != EdgeValue::Integer)
    return false;
  if (V.performBinOp(Ops::Or, mk(0, W)).isTop())
    return false;
  return isInt(V, Bits, W);
}
bool isFP(const EdgeValue &V, double D) {
  double Got = 0;
  if (V.getKind() != EdgeValue::FloatingPoint || !V.tryGetFP(Got))
    return false;
  return Got == D || (Got != Got && D != D);
}

enum Shift { No, Sh, Div };
template <typename F> void intOp(Ops Op, Shift S, F Ref) {
  unsigned W = width();
  uint64_t A = bits(W, "left"), B = bits(W, "right");
  EdgeValue L = mk(A, W), R = mk(B, W);
  EdgeValue Res = L.performBinOp(Op, R);
  if (S == Sh && B >= W)
    return; // poison
  if (S == Div && B == 0) {
    pv::ensures(Res.isTop(), "dividing by zero yields the unknown element");
    return;
  }
  if (S == Div && sgn(B, W) == -1 && (Op == Ops::SDiv || Op == Ops::SRem)) {
    if (A == low(uint64_t(1) << (W - 1), W))
      return; // overflow
    pv::ensures(isIntW(Res, Op == Ops::SDiv ? low(-A, W) : 0, W),
                "an integer operation yields the machine's result");
    return;
  }
  pv::ensures(isIntW(Res, low(Ref(A, B, W), W), W),
              "an integer operation yields the machine's result");
}
} // namespace

// ---- binary operations on constants
#define INTOP(NAME, OP, KIND, EXPR)                                            \
  PVC_CONTRACT(int_##NAME) {                                                   \
    intOp(Ops::OP, KIND, [](uint64_t A, uint64_t B, unsigned W) -> uint64_t {  \
      return EXPR;                                                             \
    });                                                                        \
  }
INTOP(add, Add, No, A + B)
INTOP(sub, Sub, No, A - B)
INTOP(mul, Mul, No, A *B)
INTOP(and, And, No, A &B)
INTOP(or, Or, No, A | B)
INTOP(xor, Xor, No, A ^ B)
INTOP(shl, Shl, Sh, A << B)
INTOP(lshr, LShr, Sh, A >> B)
INTOP(ashr, AShr, Sh, uint64_t(sgn(A, W) >> B))
INTOP(udiv, UDiv, Div, A / B)
INTOP(urem, URem, Div, A % B)
INTOP(sdiv, SDiv, Div, uint64_t(sgn(A, W) / sgn(B, W)))
INTOP(srem, SRem, Div, uint64_t(sgn(A, W) % sgn(B, W)))

PVC_CONTRACT(fp_ops) {
  pv_note_bounded_("twelve representative doubles");
  double A = rep("left"), B = rep("right");
  EdgeValue L(A), R(B);
  pv::ensures(isFP(L.performBinOp(Ops::FAdd, R), A + B), "fadd");
  pv::ensures(isFP(L.performBinOp(Ops::FSub, R), A - B), "fsub");
  pv::ensures(isFP(L.performBinOp(Ops::FMul, R), A * B), "fmul");
  pv::ensures(isFP(L.performBinOp(Ops::FDiv, R), A / B), "fdiv");
  if (B != 0) {
    double M = double((long long)(A / B)) * B; // (no fused multiply-add)
    pv::ensures(isFP(L.performBinOp(Ops::FRem, R), A - M),
                "frem has the sign of the dividend");
  }
}
namespace {
/// An arbitrary constant.
struct Any {
  unsigned Kind, W = 0, Rep = 0;
  uint64_t Bits = 0;
  Any(bool Unknown = true) {
    Kind = pv::choose(Unknown ? 4 : 3, "kind");
    if (Kind == 0)
      W = width(), Bits = bits(W, "bits");
    else if (Kind == 1)
      Rep = pv::choose(NReps, "double");
    else if (Kind == 2)
      Rep = pv::choose(3, "string");
  }
  EdgeValue make() const {
    switch (Kind) {
    case 0:
      return mk(Bits, W);
    case 1:
      return EdgeValue(Reps[Rep]);
    case 2:
      return EdgeValue(std::string(Strs[Rep]));
    default:
      return EdgeValue(nullptr);
    }
  }
  bool is(const EdgeValue &V) const {
    switch (Kind) {
    case 0:
      return isIntW(V, Bits, W);
    case 1:
      return isFP(V, Reps[Rep]);
    case 2: {
      std::string S;
      return V.getKind() == EdgeValue::String && V.tryGetString(S) &&
             S == Strs[Rep];
    }
    default:
      return V.isTop();
    }
  }
};
constexpr Ops AllOps[] = {Ops::Add,  Ops::FAdd, Ops::Sub,  Ops::FSub, Ops::Mul,
                          Ops::FMul, Ops::UDiv, Ops::SDiv, Ops::FDiv, Ops::URem,
                          Ops::SRem, Ops::FRem, Ops::Shl,  Ops::LShr, Ops::AShr,
                          Ops::And,  Ops::Or,   Ops::Xor};
} // namespace
/// Operands that do not fit together are not combined.
PVC_CONTRACT(mixed_ops) {
  Any A, B;
  if (A.Kind == B.Kind && (A.Kind != 0 || A.W == B.W) && A.Kind != 3)
    return;
  Ops Op = AllOps[pv::choose(18, "operation")];
  EdgeValue L = A.make(), R = B.make();
  pv::ensures(L.performBinOp(Op, R).isTop(),
              "combining constants of different kinds or the unknown element "
              "yields the unknown element");
}

// ---- conversions
PVC_CONTRACT(cast_int_int) {
  unsigned W = width(), To = width("to");
  uint64_t A = bits(W, "value");
  EdgeValue V = mk(A, W);
  pv::ensures(isIntW(V.typecast(EdgeValue::Integer, To),
                     low(uint64_t(sgn(A, W)), To), To),
              "truncating keeps the low bits, extending the value");
}
PVC_CONTRACT(cast_fp_int) {
  pv_note_bounded_("twelve representative doubles");
  unsigned To = width("to");
  double D = rep("value");
  EdgeValue R = EdgeValue(D).typecast(EdgeValue::Integer, To);
  double Half = double(uint64_t(1) << (To - 1));
  long long T = (long long)D;
  if (double(T) < -Half || double(T) >= Half)
    pv::ensures(R.isTop(), "a value that does not fit becomes unknown");
  else
    pv::ensures(isIntW(R, low(uint64_t(T), To), To),
                "casting to integer truncates towards zero");
}
PVC_CONTRACT(cast_int_fp) {
  pv_note_bounded_("representative integers");
  constexpr int64_t Ints[] = {0, 1, -1, 100, 16777216, -16777216, 2147483647};
  int64_t I = Ints[pv::choose(7, "value")];
  bool Dbl = pv::flip("double");
  unsigned W = pv::flip("wide") ? 64 : 32;
  EdgeValue R = mk(uint64_t(I), W).typecast(EdgeValue::FloatingPoint,
                                            Dbl ? 64 : 32);
  pv::ensures(isFP(R, Dbl ? double(I) : double(float(I))),
              "casting to floating point keeps the value");
}
PVC_CONTRACT(cast_other) {
  Any A;
  EdgeValue V = A.make();
  unsigned W = width("to");
  if (A.Kind == 1)
    pv::ensures(A.is(V.typecast(EdgeValue::FloatingPoint, 64)),
                "a double remains itself");
  if (A.Kind >= 2) {
    pv::ensures(V.typecast(EdgeValue::Integer, W).isTop(),
                "strings and the unknown element become unknown");
    pv::ensures(V.typecast(EdgeValue::FloatingPoint, 64).isTop(),
                "strings and the unknown element become unknown");
  }
  pv::ensures(V.typecast(EdgeValue::String, W).isTop(),
              "there are no casts to strings");
  pv::ensures(V.typecast(EdgeValue::Top, W).isTop(),
              "casting to unknown yields the unknown element");
}

// ---- values
PVC_CONTRACT(value_equality) {
  Any A, B;
  EdgeValue L = A.make(), R = B.make();
  bool Eq = L == R;
  pv::ensures(L == L, "equality is reflexive");
  pv::ensures((R == L) == Eq, "equality is symmetric");
  if (A.Kind != B.Kind)
    pv::ensures(!Eq, "constants of different kinds differ");
  else if (A.Kind == 0)
    pv::ensures(Eq == (sgn(A.Bits, A.W) == sgn(B.Bits, B.W)),
                "integers are equal iff they have the same value");
  else if (A.Kind == 1)
    pv::ensures(Eq == (Reps[A.Rep] == Reps[B.Rep]),
                "(clearly different) floats are equal iff they have the same "
                "value");
  else if (A.Kind == 2)
    pv::ensures(Eq == (A.Rep == B.Rep),
                "strings are equal iff they have the same characters");
  else
    pv::ensures(Eq, "the unknown element is equal to itself");
  if (Eq)
    pv::ensures(std::hash<EdgeValue>{}(L) == std::hash<EdgeValue>{}(R),
                "equal constants have the same hash");
}
PVC_CONTRACT(close_floats) {
  pv_note_bounded_("representative doubles");
  constexpr double Close[] = {0.0, 0.4999999, 0.5, 0.5000001, 1.4999999, 1.5,
                              1.5000001, 2.4999999, 2.5000001, -0.5, -0.5000001,
                              __builtin_nan(""), __builtin_inf(),
                              -__builtin_inf()};
  EdgeValue L(Close[pv::choose(14, "left")]),
      R(Close[pv::choose(14, "right")]);
  pv::ensures(L == L, "equality is reflexive");
  pv::ensures((L == R) == (R == L), "equality is symmetric");
  if (L == R)
    pv::ensures(std::hash<EdgeValue>{}(L) == std::hash<EdgeValue>{}(R),
                "equal constants have the same hash");
}
PVC_CONTRACT(literals) {
  int I = pv::any<int>("int");
  long long J = pv::any<long long>("long long");
  pv::ensures(isIntW(EdgeValue(I), low(uint64_t(int64_t(I)), 32), 32),
              "an int keeps its value");
  pv::ensures(isIntW(EdgeValue(J), uint64_t(J), 64),
              "a long long keeps its value");
  double D = rep("double");
  pv::ensures(isFP(EdgeValue(D), D), "a double keeps its value");
  pv::ensures(isFP(EdgeValue(float(D)), double(float(D))),
              "a float keeps its value");
  pv::ensures(EdgeValue(float(D)) == EdgeValue(double(float(D))),
              "floats and doubles are comparable");
  llvm::APFloat F(D);
  pv::ensures(isFP(EdgeValue(std::move(F)), D), "a double keeps its value");
}
PVC_CONTRACT(copies) {
  uint64_t Heap = pv_live_heap_();
  {
    Any A, B;
    EdgeValue V = A.make();
    EdgeValue W = B.make();
    EdgeValue C(V);
    pv::ensures(A.is(C) && A.is(V), "a copy has the same value");
    W = V;
    pv::ensures(A.is(W) && A.is(V), "assignment copies the value");
    auto &Self = W;
    W = Self;
    pv::ensures(A.is(W), "self-assignment keeps the value");
  }
  pv::ensures(pv_live_heap_() == Heap, "constants release their memory once");
}
PVC_CONTRACT(kinds) {
  Any A, B;
  EdgeValue V = A.make();
  int64_t I;
  double D;
  std::string S;
  pv::ensures(V.isTop() == (A.Kind == 3), "isTop");
  pv::ensures(V.isNumeric() == (A.Kind < 2), "isNumeric");
  pv::ensures(V.isString() == (A.Kind == 2), "isString");
  pv::ensures(V.tryGetInt(I) == (A.Kind == 0), "tryGetInt");
  pv::ensures(V.tryGetFP(D) == (A.Kind == 1), "tryGetFP");
  pv::ensures(V.tryGetString(S) == (A.Kind == 2), "tryGetString");
  pv::ensures(V.sqSubsetEq(B.make()) == (B.Kind == 3 || B.Kind == A.Kind),
              "the unknown element is above every constant");
}
PVC_CONTRACT(unary) {
  Any A;
  EdgeValue V = A.make();
  EdgeValue N = -V, C = ~V;
  if (A.Kind == 0) {
    pv::ensures(isIntW(N, low(-A.Bits, A.W), A.W), "negation");
    pv::ensures(isIntW(C, low(~A.Bits, A.W), A.W), "complement");
  } else {
    pv::ensures(N.isTop() && C.isTop(), "only integers are negated");
  }
}
/// From the constants of the IR.
PVC_CONTRACT(from_ir) {
  pv::ir::World W;
  unsigned Wd = width();
  uint64_t B = bits(Wd, "value");
  auto *I = W.constInt(W.intTy(Wd), B);
  pv::ensures(isIntW(EdgeValue(I), B, Wd), "an integer literal is its value");
  auto *Undef = reinterpret_cast<llvm::Value *>(W.rawVal<pv::ir::RawValue>(
      pv::flip("poison") ? llvm::Value::PoisonValueVal
                         : llvm::Value::UndefValueVal,
      W.intTy(Wd)));
  pv::ensures(EdgeValue(Undef).isTop(), "an undefined integer is unknown");
  auto *FTy = reinterpret_cast<llvm::Type *>(
      W.rawType(pv::flip("float") ? llvm::Type::FloatTyID
                                  : llvm::Type::DoubleTyID));
  auto *UndefF = reinterpret_cast<llvm::Value *>(
      W.rawVal<pv::ir::RawValue>(llvm::Value::UndefValueVal, FTy));
  pv::ensures(EdgeValue(UndefF).isTop(), "an undefined float is unknown");
  auto *Null = W.nullPtr(W.ptrTy(W.intTy(8)));
  std::string S = "x";
  EdgeValue N(Null);
  pv::ensures(N.isString() && N.tryGetString(S) && S.empty(),
              "a null pointer is the empty string");
  auto *Arg = W.arg(W.intTy(Wd));
  pv::ensures(EdgeValue(Arg).isTop(), "a non-constant is unknown");
}

// ---- constant sets
// The hash function is part of value_equality; here, every constant collides.
namespace {
size_t oneBucket(const std::hash<EdgeValue> *, const EdgeValue &) { return 7; }
void noHash() {
  pv::replace(&std::hash<EdgeValue>::operator(), &oneBucket);
}
EdgeValueSet unknown() { return EdgeValueSet({EdgeValue(nullptr)}); }
/// A set of at most two constants or the unknown element (Kinds: mixed kinds).
struct ASet {
  unsigned N;
  bool Unknown = false;
  EdgeValueSet S{std::initializer_list<EdgeValue>{}};
  uint64_t V[2];
  ASet(const char *Nm, unsigned Max = 2, bool Top = true) {
    unsigned C = pv::choose(Max + 1 + Top, Nm);
    Unknown = C == Max + 1;
    N = Unknown ? 0 : C;
    for (unsigned I = 0; I < N; ++I)
      V[I] = pv::any<uint32_t>("member");
    if (N == 2)
      pv::assume(V[0] != V[1]);
    for (unsigned I = 0; I < N; ++I)
      S.insert(mk(V[I], 32));
    if (Unknown)
      S.insert(EdgeValue(nullptr));
  }
  bool has(uint64_t X) const {
    bool R = false;
    for (unsigned I = 0; I < N; ++I)
      R = pv_or_(R, V[I] == X);
    return R;
  }
};
bool isUnknown(const EdgeValueSet &S) {
  return S.size() == 1 && S.begin()->isTop();
}
uint64_t val(const EdgeValue &V) {
  int64_t R = 0;
  if (!V.tryGetInt(R))
    pv::ensures(false, "the set holds the integers put into it");
  return low(uint64_t(R), 32);
}
/// Is S exactly the set of the 32-bit integers X[0..N) (with duplicates)?
void exactly(const EdgeValueSet &S, const uint64_t *X, unsigned N,
             const char *What) {
  unsigned Distinct = 0;
  for (unsigned I = 0; I < N; ++I) {
    bool Dup = false;
    for (unsigned J = 0; J < I; ++J)
      Dup = pv_or_(Dup, X[I] == X[J]);
    Distinct += !Dup;
    pv::ensures(S.count(mk(X[I], 32)) == 1, What);
  }
  pv::ensures(S.size() == Distinct, What);
  for (const auto &E : S) {
    bool In = false;
    for (unsigned I = 0; I < N; ++I)
      In = pv_or_(In, val(E) == X[I]);
    pv::ensures(In, What);
  }
}
unsigned distinct(const uint64_t *X, unsigned N) {
  unsigned D = 0;
  for (unsigned I = 0; I < N; ++I) {
    bool Dup = false;
    for (unsigned J = 0; J < I; ++J)
      Dup = pv_or_(Dup, X[I] == X[J]);
    D += !Dup;
  }
  return D;
}
} // namespace
#define SETS pv_note_bounded_("constant sets of at most two members")
PVC_CONTRACT(set_join) {
  SETS;
  noHash();
  ASet A("left"), B("right");
  unsigned Max = pv::choose(5, "limit");
  EdgeValueSet J = join(A.S, B.S, Max);
  if (A.Unknown || B.Unknown) {
    pv::ensures(isUnknown(J), "the unknown element absorbs every set");
    return;
  }
  uint64_t X[4];
  unsigned N = 0;
  for (unsigned I = 0; I < A.N; ++I)
    X[N++] = A.V[I];
  for (unsigned I = 0; I < B.N; ++I)
    X[N++] = B.V[I];
  if (distinct(X, N) > Max)
    pv::ensures(isUnknown(J), "sets beyond the limit become unknown");
  else
    exactly(J, X, N, "the join is the union");
}
PVC_CONTRACT(set_lattice) {
  SETS;
  noHash();
  using T = JoinLatticeTraits<EdgeValueSet>;
  ASet A("set");
  pv::ensures(T::join(A.S, A.S) == A.S, "joining is idempotent");
  pv::ensures(T::join(T::top(), A.S) == A.S, "the empty set is neutral");
  pv::ensures(T::join(A.S, T::top()) == A.S, "the empty set is neutral");
  pv::ensures(T::join(T::bottom(), A.S) == T::bottom() &&
                  T::join(A.S, T::bottom()) == T::bottom(),
              "the unknown element is absorbing");
  pv::ensures(isUnknown(T::bottom()) && T::top().empty(), "lattice bounds");
  pv::ensures(isUnknown(EdgeValueSet()), "a set is unknown by default");
}
PVC_CONTRACT(set_join_commutes) {
  SETS;
  noHash();
  using T = JoinLatticeTraits<EdgeValueSet>;
  ASet A("left"), B("right");
  pv::ensures(T::join(A.S, B.S) == T::join(B.S, A.S), "joining commutes");
}
PVC_CONTRACT(set_join_assoc) {
  SETS;
  noHash();
  using T = JoinLatticeTraits<EdgeValueSet>;
  ASet A("first", 2, false), B("second", 1, false), C("third", 1, false);
  pv::ensures(T::join(T::join(A.S, B.S), C.S) == T::join(A.S, T::join(B.S, C.S)),
              "joining is associative");
}
PVC_CONTRACT(set_equality) {
  SETS;
  noHash();
  ASet A("left"), B("right");
  bool Sub = A.N <= B.N, Sup = B.N <= A.N;
  for (unsigned I = 0; I < A.N; ++I)
    Sub = pv_and_(Sub, B.has(A.V[I]));
  for (unsigned I = 0; I < B.N; ++I)
    Sup = pv_and_(Sup, A.has(B.V[I]));
  bool Same = pv_and_(A.Unknown == B.Unknown, pv_and_(Sub, Sup));
  pv::ensures((A.S == B.S) == Same, "sets are equal iff they have the same "
                                    "members");
  pv::ensures((A.S != B.S) == !Same, "!= negates ==");
  // the order: inclusion, the unknown element is the largest
  bool Less = A.Unknown ? false : B.Unknown ? true : pv_and_(Sub, !Same);
  pv::ensures((A.S < B.S) == Less, "sets are ordered by inclusion");
  pv::ensures(isTopValue(A.S) == A.Unknown, "isTopValue");
}
namespace {
void setOp(Ops Op, uint64_t (*F)(uint64_t, uint64_t), unsigned MaxB) {
  SETS;
  noHash();
  ASet A("left"), B("right", MaxB);
  unsigned Max = pv::choose(5, "limit");
  EdgeValueSet R = performBinOp(Op, A.S, B.S, Max);
  if (A.N == 0 || B.N == 0) {
    pv::ensures(isUnknown(R), "nothing is known about the result of an unknown "
                              "operand");
    return;
  }
  uint64_t X[4];
  unsigned N = 0;
  for (unsigned I = 0; I < A.N; ++I)
    for (unsigned J = 0; J < B.N; ++J)
      X[N++] = low(F(A.V[I], B.V[J]), 32);
  if (distinct(X, N) > Max)
    pv::ensures(isUnknown(R), "sets beyond the limit become unknown");
  else
    exactly(R, X, N, "the result of every pair of members");
}
} // namespace
PVC_CONTRACT(set_sub) {
  setOp(Ops::Sub, [](uint64_t A, uint64_t B) { return A - B; }, 1);
}
PVC_CONTRACT(set_xor) {
  setOp(Ops::Xor, [](uint64_t A, uint64_t B) { return A ^ B; }, 2);
}
/// Pairs without a known result.
PVC_CONTRACT(set_div) {
  SETS;
  noHash();
  ASet A("left", 1, false), B("right", 2, false);
  pv::assume(A.N && B.N);
  EdgeValueSet R = performBinOp(Ops::UDiv, A.S, B.S, 2);
  if (isUnknown(R))
    return;
  for (unsigned J = 0; J < B.N; ++J)
    pv::ensures(R.count(B.V[J] == 0 ? EdgeValue(nullptr)
                                    : mk(A.V[0] / B.V[J], 32)) == 1,
                "the result of every pair of members");
}
PVC_CONTRACT(set_cast) {
  SETS;
  noHash();
  ASet A("set");
  unsigned To = Widths[1 + pv::choose(3, "to")];
  EdgeValueSet R = performTypecast(A.S, EdgeValue::Integer, To);
  if (A.N == 0) {
    pv::ensures(isUnknown(R), "casting the unknown value");
    return;
  }
  for (unsigned I = 0; I < A.N; ++I)
    pv::ensures(R.count(mk(low(A.V[I], To), To)) == 1,
                "the converted members");
  for (const auto &E : R) {
    bool In = false;
    for (unsigned I = 0; I < A.N; ++I)
      In = pv_or_(In, low(val(E), To) == low(A.V[I], To));
    pv::ensures(In, "only the converted members");
  }
}

// ---- edge functions
namespace {
using EF = EdgeFunction<EdgeValueSet>;
/// An arbitrary edge function of the analysis over 32-bit integers.
EF fn(const char *Nm, unsigned Max = 4) {
  switch (pv::choose(Max, Nm)) {
  case 0:
    return EdgeIdentity<EdgeValueSet>{};
  case 1: {
    EdgeValueSet S{std::initializer_list<EdgeValue>{}};
    S.insert(mk(pv::any<uint32_t>("constant"), 32));
    return BinaryEdgeFunction{pv::flip("subtract") ? Ops::Sub : Ops::Add, S,
                              pv::flip("left")};
  }
  case 2: {
    EdgeValueSet S{std::initializer_list<EdgeValue>{}};
    S.insert(mk(pv::any<uint32_t>("constant"), 32));
    return GenConstant{S};
  }
  default:
    return AllBottom<EdgeValueSet>{};
  }
}
} // namespace
PVC_CONTRACT(ef_meaning) {
  SETS;
  noHash();
  ASet A("value");
  uint64_t C = pv::any<uint32_t>("constant");
  EdgeValueSet S{std::initializer_list<EdgeValue>{}};
  S.insert(mk(C, 32));
  bool Left = pv::flip("left");
  EF F = BinaryEdgeFunction{Ops::Sub, S, Left};
  EdgeValueSet R = F.computeTarget(A.S);
  if (A.N == 0) {
    pv::ensures(isUnknown(R), "nothing is known about the result");
    return;
  }
  uint64_t X[2];
  for (unsigned I = 0; I < A.N; ++I)
    X[I] = low(Left ? C - A.V[I] : A.V[I] - C, 32);
  exactly(R, X, A.N, "the operation with the constant on its side");
  EF T = TypecastEdgeFunction{16, EdgeValue::Integer};
  EdgeValueSet Q = T.computeTarget(A.S);
  for (unsigned I = 0; I < A.N; ++I)
    pv::ensures(Q.count(mk(low(A.V[I], 16), 16)) == 1, "the converted members");
}
PVC_CONTRACT(ef_compose) {
  SETS;
  noHash();
  ASet A("value");
  EF F = fn("first"), G = fn("second");
  EF H = F.composeWith(G);
  pv::ensures(H.computeTarget(A.S) == G.computeTarget(F.computeTarget(A.S)),
              "composition applies one function after the other");
}
PVC_CONTRACT(ef_join) {
  SETS;
  noHash();
  using T = JoinLatticeTraits<EdgeValueSet>;
  ASet A("value", 1);
  EF F = fn("first"), G = fn("second");
  EF H = F.joinWith(G);
  EdgeValueSet J = T::join(F.computeTarget(A.S), G.computeTarget(A.S));
  EdgeValueSet R = H.computeTarget(A.S);
  pv::ensures(R == J || J < R, "joining covers both functions");
}
