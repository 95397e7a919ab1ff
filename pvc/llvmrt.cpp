// Executable specifications of out-of-line libLLVM functions (LLVM 14
// semantics) for PVC; listed as assumptions in the evidence.
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/IntEqClasses.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Support/raw_ostream.h"

namespace llvm {
const Function *Instruction::getFunction() const {
  return getParent()->getParent();
}
// Attributes of fabricated arguments live in Argument's tail padding.
bool Argument::hasStructRetAttr() const {
  if (!getType()->isPointerTy())
    return false;
  return reinterpret_cast<const uint32_t *>(this)[9] & 1;
}
bool Argument::hasByValAttr() const {
  if (!getType()->isPointerTy())
    return false;
  return reinterpret_cast<const uint32_t *>(this)[9] & 2;
}
// Equivalence classes of integers: the smallest member is the leader.
void IntEqClasses::grow(unsigned N) {
  EC.reserve(N);
  while (EC.size() < N)
    EC.push_back(EC.size());
}
unsigned IntEqClasses::findLeader(unsigned A) const {
  while (A != EC[A])
    A = EC[A];
  return A;
}
unsigned IntEqClasses::join(unsigned A, unsigned B) {
  unsigned LA = findLeader(A), LB = findLeader(B);
  unsigned Lo = LA < LB ? LA : LB, Hi = LA < LB ? LB : LA;
  EC[Hi] = Lo;
  return Lo;
}
void IntEqClasses::compress() {
  if (NumClasses)
    return;
  for (unsigned I = 0, E = EC.size(); I != E; ++I)
    EC[I] = EC[I] == I ? NumClasses++ : EC[EC[I]];
}
const Module *Instruction::getModule() const {
  return getParent()->getParent()->getParent();
}
static const Value *strip(const Value *V, bool Aliases) {
  while (V->getType()->isPointerTy()) {
    if (const auto *G = dyn_cast<GEPOperator>(V)) {
      if (!G->hasAllZeroIndices())
        break;
      V = G->getPointerOperand();
    } else if (isa<BitCastOperator>(V) || isa<AddrSpaceCastOperator>(V)) {
      V = cast<User>(V)->getOperand(0);
      if (!V->getType()->isPointerTy())
        break;
    } else if (Aliases && isa<GlobalAlias>(V)) {
      V = cast<GlobalAlias>(V)->getAliasee();
    } else {
      break;
    }
  }
  return V;
}
const Value *Value::stripPointerCasts() const { return strip(this, false); }
const Value *Value::stripPointerCastsAndAliases() const {
  return strip(this, true);
}
bool Value::hasNUsesOrMore(unsigned N) const {
  auto I = use_begin(), E = use_end();
  for (; N; --N, ++I)
    if (I == E)
      return false;
  return true;
}
bool Instruction::comesBefore(const Instruction *Other) const {
  auto I = std::next(getIterator()), E = getParent()->end();
  for (; I != E; ++I)
    if (&*I == Other)
      return true;
  return false;
}
size_t StringRef::find(StringRef S, size_t From) const {
  for (size_t I = From; I + S.size() <= size(); ++I)
    if (substr(I, S.size()) == S)
      return I;
  return npos;
}
bool Type::isIntegerTy(unsigned W) const {
  return isIntegerTy() && cast<IntegerType>(this)->getBitWidth() == W;
}
bool ConstantExpr::isCast() const { return Instruction::isCast(getOpcode()); }
bool GlobalValue::isDeclaration() const {
  if (const auto *GV = dyn_cast<GlobalVariable>(this))
    return GV->getNumOperands() == 0;
  if (const auto *F = dyn_cast<Function>(this))
    return F->empty();
  return false;
}
bool BinaryOpIntrinsic::isSigned() const {
  switch (getIntrinsicID()) {
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::smul_with_overflow:
  case Intrinsic::sadd_sat:
  case Intrinsic::ssub_sat:
    return true;
  default:
    return false;
  }
}
Instruction::BinaryOps BinaryOpIntrinsic::getBinaryOp() const {
  switch (getIntrinsicID()) {
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::uadd_sat:
  case Intrinsic::sadd_sat:
    return Instruction::Add;
  case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::usub_sat:
  case Intrinsic::ssub_sat:
    return Instruction::Sub;
  case Intrinsic::umul_with_overflow:
  case Intrinsic::smul_with_overflow:
    return Instruction::Mul;
  default:
    __builtin_trap();
  }
}
unsigned Instruction::getNumSuccessors() const {
  switch (getOpcode()) {
  case Instruction::Br:
    return cast<BranchInst>(this)->getNumSuccessors();
  case Instruction::Switch:
    return cast<SwitchInst>(this)->getNumSuccessors();
  case Instruction::Invoke:
    return cast<InvokeInst>(this)->getNumSuccessors();
  default:
    return 0;
  }
}
BasicBlock *Instruction::getSuccessor(unsigned I) const {
  switch (getOpcode()) {
  case Instruction::Br:
    return cast<BranchInst>(this)->getSuccessor(I);
  case Instruction::Switch:
    return cast<SwitchInst>(this)->getSuccessor(I);
  case Instruction::Invoke:
    return cast<InvokeInst>(this)->getSuccessor(I);
  default:
    __builtin_trap();
  }
}
const Instruction *BasicBlock::getTerminator() const {
  if (InstList.empty() || !InstList.back().isTerminator())
    return nullptr;
  return &InstList.back();
}
const Instruction *
Instruction::getNextNonDebugInstruction(bool SkipPseudoOp) const {
  for (const Instruction *I = getNextNode(); I; I = I->getNextNode())
    if (!isa<DbgInfoIntrinsic>(I) && !(SkipPseudoOp && isa<PseudoProbeInst>(I)))
      return I;
  return nullptr;
}
const Instruction *
Instruction::getPrevNonDebugInstruction(bool SkipPseudoOp) const {
  for (const Instruction *I = getPrevNode(); I; I = I->getPrevNode())
    if (!isa<DbgInfoIntrinsic>(I) && !(SkipPseudoOp && isa<PseudoProbeInst>(I)))
      return I;
  return nullptr;
}
} // namespace llvm

// ---- StringMap (open addressing over the entry pointers) ------------------
namespace llvm {
static unsigned pvStrHash(StringRef K) {
  unsigned H = 0;
  for (size_t I = 0; I < K.size(); ++I)
    H = H * 33 + (unsigned char)K.data()[I];
  return H;
}
static bool pvSameKey(const char *A, size_t NA, StringRef K) {
  return NA == K.size() && (NA == 0 || __builtin_memcmp(A, K.data(), NA) == 0);
}
StringMapImpl::StringMapImpl(unsigned InitSize, unsigned ItSize) {
  ItemSize = ItSize;
  if (InitSize) {
    unsigned N = 1;
    while (N < InitSize * 4 / 3 + 1)
      N *= 2;
    init(N);
  }
}
void StringMapImpl::init(unsigned InitSize) {
  NumItems = NumTombstones = 0;
  NumBuckets = InitSize ? InitSize : 16;
  TheTable = static_cast<StringMapEntryBase **>(
      calloc(NumBuckets + 1, sizeof(StringMapEntryBase *) + sizeof(unsigned)));
  TheTable[NumBuckets] = reinterpret_cast<StringMapEntryBase *>(2);
}
unsigned StringMapImpl::LookupBucketFor(StringRef Name) {
  if (NumBuckets == 0)
    init(16);
  unsigned Full = pvStrHash(Name);
  auto *Hs = reinterpret_cast<unsigned *>(TheTable + NumBuckets + 1);
  int Tomb = -1;
  for (unsigned B = Full & (NumBuckets - 1), Step = 1;;
       B = (B + Step++) & (NumBuckets - 1)) {
    StringMapEntryBase *E = TheTable[B];
    if (!E) {
      unsigned R = Tomb != -1 ? unsigned(Tomb) : B;
      Hs[R] = Full;
      return R;
    }
    if (E == getTombstoneVal()) {
      if (Tomb == -1)
        Tomb = int(B);
    } else if (Hs[B] == Full &&
               pvSameKey(reinterpret_cast<char *>(E) + ItemSize,
                         E->getKeyLength(), Name))
      return B;
  }
}
int StringMapImpl::FindKey(StringRef Key) const {
  if (NumBuckets == 0)
    return -1;
  unsigned Full = pvStrHash(Key);
  auto *Hs = reinterpret_cast<unsigned *>(TheTable + NumBuckets + 1);
  for (unsigned B = Full & (NumBuckets - 1), Step = 1;;
       B = (B + Step++) & (NumBuckets - 1)) {
    StringMapEntryBase *E = TheTable[B];
    if (!E)
      return -1;
    if (E != getTombstoneVal() && Hs[B] == Full &&
        pvSameKey(reinterpret_cast<char *>(E) + ItemSize, E->getKeyLength(),
                  Key))
      return int(B);
  }
}
void StringMapImpl::RemoveKey(StringMapEntryBase *V) {
  RemoveKey(StringRef(reinterpret_cast<char *>(V) + ItemSize,
                      V->getKeyLength()));
}
StringMapEntryBase *StringMapImpl::RemoveKey(StringRef Key) {
  int B = FindKey(Key);
  if (B == -1)
    return nullptr;
  StringMapEntryBase *R = TheTable[B];
  TheTable[B] = getTombstoneVal();
  --NumItems;
  ++NumTombstones;
  return R;
}
unsigned StringMapImpl::RehashTable(unsigned BucketNo) {
  unsigned NewSize;
  if (NumItems * 4 > NumBuckets * 3)
    NewSize = NumBuckets * 2;
  else if (NumBuckets - (NumItems + NumTombstones) <= NumBuckets / 8)
    NewSize = NumBuckets;
  else
    return BucketNo;
  auto *Hs = reinterpret_cast<unsigned *>(TheTable + NumBuckets + 1);
  auto **NT = static_cast<StringMapEntryBase **>(
      calloc(NewSize + 1, sizeof(StringMapEntryBase *) + sizeof(unsigned)));
  auto *NH = reinterpret_cast<unsigned *>(NT + NewSize + 1);
  NT[NewSize] = reinterpret_cast<StringMapEntryBase *>(2);
  unsigned NewNo = BucketNo;
  for (unsigned I = 0; I < NumBuckets; ++I) {
    StringMapEntryBase *E = TheTable[I];
    if (!E || E == getTombstoneVal())
      continue;
    unsigned B = Hs[I] & (NewSize - 1);
    for (unsigned Step = 1; NT[B]; B = (B + Step++) & (NewSize - 1))
      ;
    NT[B] = E;
    NH[B] = Hs[I];
    if (I == BucketNo)
      NewNo = B;
  }
  free(TheTable);
  TheTable = NT;
  NumBuckets = NewSize;
  NumTombstones = 0;
  return NewNo;
}
} // namespace llvm

// ---- streams: an unbuffered stream whose writes have no effect
namespace {
alignas(16) char PvStream[256];
}
namespace llvm {
raw_fd_ostream &outs() { return *reinterpret_cast<raw_fd_ostream *>(PvStream); }
raw_fd_ostream &errs() { return *reinterpret_cast<raw_fd_ostream *>(PvStream); }
} // namespace llvm

// ---- APInt: at most 64 bits ------------------------------------------------
namespace llvm {
namespace {
inline uint64_t pvZ(const APInt &A) {
  if (A.getBitWidth() > 64)
    __builtin_trap();
  return A.getRawData()[0];
}
inline int64_t pvS(const APInt &A) {
  uint64_t V = pvZ(A);
  unsigned W = A.getBitWidth();
  return W == 64 ? int64_t(V) : int64_t(V << (64 - W)) >> (64 - W);
}
} // namespace
// wider than 64 bits: only to ask how many bits a constant of up to 128 bits
// needs
static unsigned pvLeading(const uint64_t *P, unsigned W, uint64_t Flip) {
  uint64_t Hi = (P[1] ^ Flip) << (128 - W), Lo = P[0] ^ Flip;
  if (Hi != 0)
    return llvm::countLeadingZeros(Hi, ZB_Undefined);
  return W - 64 + (Lo ? llvm::countLeadingZeros(Lo, ZB_Undefined) : 64);
}
unsigned APInt::countLeadingZerosSlowCase() const {
  return pvLeading(U.pVal, BitWidth, 0);
}
unsigned APInt::countLeadingOnesSlowCase() const {
  return pvLeading(U.pVal, BitWidth, ~uint64_t(0));
}
void APInt::initSlowCase(uint64_t, bool) { __builtin_trap(); }
void APInt::initSlowCase(const APInt &) { __builtin_trap(); }
void APInt::assignSlowCase(const APInt &RHS) {
  if (this == &RHS)
    return;
  U.VAL = pvZ(RHS);
  BitWidth = RHS.BitWidth;
}
APInt &APInt::operator+=(const APInt &RHS) {
  U.VAL += pvZ(RHS);
  return clearUnusedBits();
}
APInt &APInt::operator-=(const APInt &RHS) {
  U.VAL -= pvZ(RHS);
  return clearUnusedBits();
}
APInt APInt::operator*(const APInt &RHS) const {
  return APInt(BitWidth, pvZ(*this) * pvZ(RHS));
}
APInt &APInt::operator*=(const APInt &RHS) { return *this = *this * RHS; }
APInt &APInt::operator++() {
  U.VAL += 1;
  return clearUnusedBits();
}
APInt &APInt::operator<<=(const APInt &Amt) {
  U.VAL = pvZ(Amt) >= BitWidth ? 0 : U.VAL << pvZ(Amt);
  return clearUnusedBits();
}
void APInt::lshrInPlace(const APInt &Amt) {
  U.VAL = pvZ(Amt) >= BitWidth ? 0 : U.VAL >> pvZ(Amt);
}
void APInt::ashrInPlace(const APInt &Amt) {
  int64_t V = pvS(*this);
  U.VAL = V >> (pvZ(Amt) >= BitWidth ? 63 : pvZ(Amt));
  clearUnusedBits();
}
APInt APInt::udiv(const APInt &RHS) const {
  if (pvZ(RHS) == 0)
    __builtin_trap();
  return APInt(BitWidth, pvZ(*this) / pvZ(RHS));
}
APInt APInt::urem(const APInt &RHS) const {
  if (pvZ(RHS) == 0)
    __builtin_trap();
  return APInt(BitWidth, pvZ(*this) % pvZ(RHS));
}
APInt APInt::sdiv(const APInt &RHS) const {
  if (pvZ(RHS) == 0)
    __builtin_trap();
  if (pvS(RHS) == -1)
    return APInt(BitWidth, -pvZ(*this));
  return APInt(BitWidth, uint64_t(pvS(*this) / pvS(RHS)));
}
APInt APInt::srem(const APInt &RHS) const {
  if (pvZ(RHS) == 0)
    __builtin_trap();
  if (pvS(RHS) == -1)
    return APInt(BitWidth, 0);
  return APInt(BitWidth, uint64_t(pvS(*this) % pvS(RHS)));
}
APInt APInt::trunc(unsigned W) const { return APInt(W, pvZ(*this)); }
APInt APInt::zext(unsigned W) const { return APInt(W, pvZ(*this)); }
APInt APInt::sext(unsigned W) const { return APInt(W, uint64_t(pvS(*this))); }
APInt APInt::zextOrTrunc(unsigned W) const { return APInt(W, pvZ(*this)); }
APInt APInt::zextOrSelf(unsigned W) const {
  return BitWidth < W ? zext(W) : *this;
}
APInt APInt::sextOrSelf(unsigned W) const {
  return BitWidth < W ? sext(W) : *this;
}
APInt APInt::sextOrTrunc(unsigned W) const {
  return APInt(W, uint64_t(pvS(*this)));
}

// ---- APFloat: doubles, held bitwise ----------------------------------------
namespace {
char PvDoubleSem[8], PvSingleSem[8], PvHalfSem[8], PvQuadSem[8], PvPPCSem[8],
    PvX87Sem[8], PvBogusSem[8];
inline const fltSemantics &pvSem(char *P) {
  return *reinterpret_cast<const fltSemantics *>(P);
}
inline double pvD(const detail::IEEEFloat &F) {
  double D;
  __builtin_memcpy(&D, reinterpret_cast<const char *>(&F) + 8, 8);
  return D;
}
inline double pvTrunc(double D) {
  return D > 9.0e15 || D < -9.0e15 ? D : double((long long)D);
}
} // namespace
const fltSemantics &APFloatBase::IEEEdouble() { return pvSem(PvDoubleSem); }
const fltSemantics &APFloatBase::IEEEsingle() { return pvSem(PvSingleSem); }
const fltSemantics &APFloatBase::IEEEhalf() { return pvSem(PvHalfSem); }
const fltSemantics &APFloatBase::IEEEquad() { return pvSem(PvQuadSem); }
const fltSemantics &APFloatBase::PPCDoubleDouble() { return pvSem(PvPPCSem); }
const fltSemantics &APFloatBase::x87DoubleExtended() { return pvSem(PvX87Sem); }
const fltSemantics &APFloatBase::Bogus() { return pvSem(PvBogusSem); }
namespace detail {
IEEEFloat::IEEEFloat(double D) {
  semantics = &APFloatBase::IEEEdouble();
  exponent = 0;
  uint64_t B;
  __builtin_memcpy(&B, &D, 8);
  significand.part = B;
  sign = B >> 63;
  uint64_t E = (B >> 52) & 0x7ff, M = B & ((1ull << 52) - 1);
  category = E == 0x7ff ? (M ? fcNaN : fcInfinity)
             : !E && !M ? fcZero
                        : fcNormal;
}
IEEEFloat::IEEEFloat(float F) {
  new (this) IEEEFloat(double(F));
  semantics = &APFloatBase::IEEEsingle();
}
static void pvCopy(void *To, const void *From) {
  __builtin_memcpy(To, From, sizeof(IEEEFloat));
}
IEEEFloat::IEEEFloat(const IEEEFloat &O) { pvCopy(this, &O); }
IEEEFloat::IEEEFloat(IEEEFloat &&O) {
  pvCopy(this, &O);
  O.semantics = &APFloatBase::Bogus();
}
IEEEFloat &IEEEFloat::operator=(const IEEEFloat &O) {
  if (this != &O)
    pvCopy(this, &O);
  return *this;
}
IEEEFloat &IEEEFloat::operator=(IEEEFloat &&O) {
  pvCopy(this, &O);
  O.semantics = &APFloatBase::Bogus();
  return *this;
}
IEEEFloat::~IEEEFloat() {}
static APFloatBase::opStatus pvSet(IEEEFloat &This, const IEEEFloat &RHS,
                                   double D) {
  if (&This.getSemantics() != &APFloatBase::IEEEdouble() ||
      &RHS.getSemantics() != &APFloatBase::IEEEdouble())
    __builtin_trap();
  IEEEFloat R(D);
  pvCopy(&This, &R);
  return APFloatBase::opOK;
}
APFloatBase::opStatus IEEEFloat::add(const IEEEFloat &R, roundingMode) {
  return pvSet(*this, R, pvD(*this) + pvD(R));
}
APFloatBase::opStatus IEEEFloat::subtract(const IEEEFloat &R, roundingMode) {
  return pvSet(*this, R, pvD(*this) - pvD(R));
}
APFloatBase::opStatus IEEEFloat::multiply(const IEEEFloat &R, roundingMode) {
  return pvSet(*this, R, pvD(*this) * pvD(R));
}
APFloatBase::opStatus IEEEFloat::divide(const IEEEFloat &R, roundingMode) {
  return pvSet(*this, R, pvD(*this) / pvD(R));
}
APFloatBase::opStatus IEEEFloat::mod(const IEEEFloat &R) {
  // finite operands of similar magnitude only
  double X = pvD(*this), Y = pvD(R);
  double M = pvTrunc(X / Y) * Y; // (no fused multiply-add)
  return pvSet(*this, R, X - M);
}
APFloatBase::opStatus IEEEFloat::remainder(const IEEEFloat &R) {
  double X = pvD(*this), Y = pvD(R), Q = X / Y, N = pvTrunc(Q), D = Q - N;
  if (D > 0.5 || (D == 0.5 && ((long long)N & 1)))
    N += 1;
  if (D < -0.5 || (D == -0.5 && ((long long)N & 1)))
    N -= 1;
  double M = N * Y;
  return pvSet(*this, R, X - M);
}
APFloatBase::cmpResult IEEEFloat::compare(const IEEEFloat &R) const {
  if (semantics != R.semantics)
    __builtin_trap();
  double X = pvD(*this), Y = pvD(R);
  return X < Y    ? APFloatBase::cmpLessThan
         : X > Y  ? APFloatBase::cmpGreaterThan
         : X == Y ? APFloatBase::cmpEqual
                  : APFloatBase::cmpUnordered;
}
bool IEEEFloat::bitwiseIsEqual(const IEEEFloat &R) const {
  return semantics == R.semantics && significand.part == R.significand.part;
}
} // namespace detail
APFloat::Storage::Storage(detail::IEEEFloat F, const fltSemantics &S) {
  new (this) detail::IEEEFloat(F);
  semantics = &S;
}
double APFloat::convertToDouble() const { return pvD(U.IEEE); }
APFloatBase::opStatus APFloat::convert(const fltSemantics &To, roundingMode,
                                       bool *Loses) {
  *Loses = false;
  U.semantics = &To;
  return opOK;
}
APFloatBase::opStatus APFloat::convertToInteger(APSInt &Res, roundingMode RM,
                                                bool *IsExact) const {
  double D = pvD(U.IEEE);
  unsigned W = Res.getBitWidth();
  *IsExact = false;
  bool Neg = D < 0;
  bool S = Res.isSigned();
  double N = D != D || D > 9.0e15 || D < -9.0e15 ? D : pvTrunc(D);
  if (RM == roundingMode::NearestTiesToEven && N != D && D == D) {
    double Fr = Neg ? N - D : D - N;
    bool Odd = (long long)N & 1;
    if (Fr > 0.5 || (Fr == 0.5 && Odd))
      N += Neg ? -1 : 1;
  } else if (RM != roundingMode::TowardZero && N != D && D == D) {
    __builtin_trap();
  }
  double Two = double(1ull << (W - 1));
  double Lo = S ? -Two : 0.0, Hi = S ? Two : Two * 2.0;
  if (D != D) {
    static_cast<APInt &>(Res) = APInt(W, 0);
    return opInvalidOp;
  }
  if (N < Lo || N >= Hi) {
    uint64_t V = S ? (1ull << (W - 1)) - (Neg ? 0 : 1) : (Neg ? 0 : ~0ull);
    static_cast<APInt &>(Res) = APInt(W, V);
    return opInvalidOp;
  }
  *IsExact = N == D;
  static_cast<APInt &>(Res) =
      APInt(W, N < 0 ? uint64_t((long long)N) : uint64_t(N));
  return *IsExact ? opOK : opInexact;
}
} // namespace llvm

bool llvm::Type::isOpaquePointerTy() const {
  return getTypeID() == PointerTyID && static_cast<const PointerType *>(this)->isOpaque();
}

// (modules are materialized)
void llvm::Value::assertModuleIsMaterializedImpl() const {}
