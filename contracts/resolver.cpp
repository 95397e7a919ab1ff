// Contracts: which functions an indirect call may reach
// (lib/PhasarLLVM/ControlFlow/Resolver/*.cpp, LLVMVFTable.cpp,
// LLVMVFTableProvider.cpp, isConsistentCall/matchesSignature).
//
// Type hierarchy, vtables and alias information are arbitrary (small) relations;
// call sites are fabricated in LLVM's layout.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/CHAResolver.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/NOResolver.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/OTFResolver.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/RTAResolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfo.h"

#include "llvm/IR/Constants.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/Module.h"

template class psr::AliasInfoRef<const llvm::Value *, const llvm::Instruction *>;
#ifndef PV_NATIVE
bool psr::LLVMProjectIRDB::isValidImpl() const noexcept { return Mod != nullptr; }
template class psr::ProjectIRDBBase<psr::LLVMProjectIRDB>;
#endif

using namespace psr;
using llvm::Instruction;
using llvm::Value;
using ST = const llvm::StructType *;
using F_t = const llvm::Function *;
using FSet = Resolver::FunctionSetTy;

extern "C" void *_ZTVN3psr17LLVMTypeHierarchyE[];
extern "C" std::set<ST>
_ZNK3psr17LLVMTypeHierarchy11getSubTypesEPKN4llvm10StructTypeE(
    const LLVMTypeHierarchy *, ST);
extern "C" std::set<ST>
_ZN3psr15CachedTypeGraph8getTypesEPKN4llvm10StructTypeE(void *, ST);

namespace {
// ---- names
struct Name {
  const Value *V;
  const char *N;
};
Name Names[16];
unsigned NumNames;
llvm::StringRef fakeName(const Value *V) {
  for (unsigned I = 0; I < NumNames; ++I)
    if (Names[I].V == V)
      return Names[I].N;
  return "";
}
template <typename T> T *named(T *V, const char *N) {
  Names[NumNames++] = {V, N};
  // HasName
  auto *R = reinterpret_cast<pv::ir::RawValue *>(V);
  R->NumOps |= 1u << 28;
  return V;
}
// ---- sub types
ST SubRoot;
std::set<ST> *Subs;
std::set<ST> fakeSubTypes(const LLVMTypeHierarchy *, ST T) {
  pv::ensures(T == SubRoot,
              "the subtypes of the receiver's type are asked for");
  return *Subs;
}
const Value *SRetCall;
bool fakeParamAttr(const llvm::CallBase *C, unsigned I,
                   llvm::Attribute::AttrKind K) {
  return C == SRetCall && I == 0 && K == llvm::Attribute::StructRet;
}
bool addressTaken(const llvm::Function *F, const llvm::User **, bool, bool,
                  bool) {
  return reinterpret_cast<const pv::ir::RawFunc *>(F)->Comdat != nullptr;
}
llvm::StringRef fakeStructName(ST) { return "struct.__va_list_tag"; }

struct Env {
  pv::ir::World W;
  alignas(16) char ModBuf[sizeof(llvm::Module)] = {};
  alignas(16) char DBBuf[sizeof(LLVMProjectIRDB)] = {};
  alignas(16) char VTPBuf[sizeof(LLVMVFTableProvider)] = {};
  alignas(16) char THBuf[sizeof(LLVMTypeHierarchy)] = {};
  llvm::Module *M = reinterpret_cast<llvm::Module *>(ModBuf);
  LLVMProjectIRDB *DB = reinterpret_cast<LLVMProjectIRDB *>(DBBuf);
  LLVMVFTableProvider *VTP = reinterpret_cast<LLVMVFTableProvider *>(VTPBuf);
  LLVMTypeHierarchy *TH = reinterpret_cast<LLVMTypeHierarchy *>(THBuf);
  using Map = decltype(LLVMVFTableProvider::TypeVFTMap);
  std::set<ST> Sub;
  llvm::IntegerType *I8 = W.intTy(8), *I32 = W.intTy(32), *I64 = W.intTy(64);
  llvm::StructType *T[3] = {W.structTy({I32}), W.structTy({I32}),
                            W.structTy({I32})};
  llvm::PointerType *P[3] = {W.ptrTy(T[0]), W.ptrTy(T[1]), W.ptrTy(T[2])};
  llvm::FunctionType *FT = fn(I32, P[0]);
  llvm::Function *Caller = W.func(FT, 0, false);
  llvm::BasicBlock *BB =
      &*reinterpret_cast<llvm::Function *>(Caller)->begin();
  Env() {
    NumNames = 0;
    SRetCall = nullptr;
    Subs = &Sub;
    new (&VTP->TypeVFTMap) Map();
    *reinterpret_cast<void **>(THBuf) = _ZTVN3psr17LLVMTypeHierarchyE + 2;
    new (&M->FunctionList) llvm::Module::FunctionListType();
    new (&M->GlobalList) llvm::Module::GlobalListType();
    new (&DB->Mod) MaybeUniquePtr<llvm::Module>(M);
    pv_replace_(
        reinterpret_cast<void *>(
            &_ZNK3psr17LLVMTypeHierarchy11getSubTypesEPKN4llvm10StructTypeE),
        reinterpret_cast<void *>(&fakeSubTypes));
    pv::replace(&Value::getName, &fakeName);
    pv::replace(&llvm::CallBase::paramHasAttr, &fakeParamAttr);
    pv::replace(&llvm::Function::hasAddressTaken, &addressTaken);
    pv::replace(&llvm::StructType::getName, &fakeStructName);
  }
  ~Env() {
    VTP->TypeVFTMap.~Map();
  }
  llvm::FunctionType *fn(llvm::Type *R, llvm::Type *A) {
    return W.fnTy(R, &A, 1);
  }
  void inModule(llvm::Function *F) {
    pv::ir::World::link(reinterpret_cast<void **>(&M->FunctionList),
                        &reinterpret_cast<pv::ir::RawFunc *>(F)->Prev);
  }
  void inModule(llvm::GlobalVariable *G) {
    pv::ir::World::link(reinterpret_cast<void **>(&M->GlobalList),
                        &reinterpret_cast<pv::ir::RawGVar *>(G)->Prev);
  }
  llvm::Instruction *load(Value *Ptr, llvm::Type *Ty) {
    return W.append(BB, W.inst(Instruction::Load, Ty, {Ptr}));
  }
  /// The callee operand of a virtual call through slot Idx
  Value *slot(llvm::FunctionType *Ty, Value *Idx) {
    auto *PF = W.ptrTy(Ty);
    auto *PPF = W.ptrTy(PF);
    auto *G = W.gep(PF, PF, {W.arg(PPF), Idx});
    reinterpret_cast<pv::ir::RawValue *>(G)->VTy = PPF;
    return load(W.append(BB, G), PF);
  }
  llvm::CallInst *call(llvm::FunctionType *Ty, Value *Callee,
                       std::initializer_list<Value *> Args) {
    auto *C = W.call(Ty, Callee, Args.begin(), Args.size());
    W.append(BB, C);
    return C;
  }
  void vtable(ST Ty, std::vector<F_t> Fs) {
    VTP->TypeVFTMap.emplace(Ty, LLVMVFTable(std::move(Fs)));
  }
  llvm::Constant *constant(unsigned Id, llvm::Type *Ty,
                           std::initializer_list<Value *> Ops) {
    return reinterpret_cast<llvm::Constant *>(
        W.rawUser<pv::ir::RawValue>(Id, Ty, Ops.begin(), Ops.size()));
  }
  llvm::Constant *cexpr(unsigned Op, llvm::Type *Ty,
                        std::initializer_list<Value *> Ops) {
    auto *C = constant(Value::ConstantExprVal, Ty, Ops);
    reinterpret_cast<pv::ir::RawValue *>(C)->SubclassData = Op;
    return C;
  }
};
void is(const FSet &Got, std::initializer_list<F_t> All,
        std::initializer_list<bool> Want, const char *L) {
  auto W = Want.begin();
  unsigned N = 0;
  for (F_t F : All) {
    bool Dup = false;
    for (auto *P = All.begin(); P != All.begin() + (W - Want.begin()); ++P)
      Dup = Dup || *P == F;
    pv::ensures((Got.count(F) != 0) == *W, L);
    N += *W && !Dup;
    ++W;
  }
  pv::ensures(Got.size() == N, L);
}
} // namespace

// ---- recognizing virtual calls --------------------------------------------
PVC_CONTRACT(vft_index) {
  Env E;
  unsigned K = pv::choose(6, "callee operand");
  Value *Op = nullptr;
  uint64_t C = pv::any<uint64_t>("slot");
  auto *PF = E.W.ptrTy(E.FT);
  auto *PPF = E.W.ptrTy(PF);
  switch (K) {
  case 0:
    Op = E.W.arg(PF);
    break;
  case 1: // a function pointer variable
    Op = E.load(E.W.arg(PPF), PF);
    break;
  case 2: // slot of a vtable
    Op = E.slot(E.FT, E.W.constInt(E.I64, C));
    break;
  case 3: // table of function pointers, unknown index
    Op = E.slot(E.FT, E.W.arg(E.I64));
    break;
  case 4: { // member of a struct
    auto *S = E.W.structTy({PF});
    auto *G = E.W.gep(S, PF, {E.W.arg(E.W.ptrTy(S)), E.W.constInt(E.I32, C),
                              E.W.constInt(E.I32, 0)});
    Op = E.load(E.W.append(E.BB, G), PF);
    break;
  }
  default: { // member of an array
    auto *G = E.W.gep(E.T[0], PF,
                      {E.W.arg(E.P[0]), E.W.constInt(E.I64, C), E.W.arg(E.I64)});
    Op = E.load(E.W.append(E.BB, G), PF);
  }
  }
  auto *Call = E.call(E.FT, Op, {E.W.arg(E.P[0])});
  auto Got = getVFTIndex(Call);
  pv::ensures(Got.has_value() == (K == 2),
              "only a slot of a table, addressed by one constant index, is a "
              "slot of a vtable");
  if (Got && K == 2)
    pv::ensures(*Got == unsigned(C), "the called slot is the addressed one");
}
PVC_CONTRACT(receiver) {
  Env E;
  unsigned N = unsigned(pv::choose(4, "arguments"));
  llvm::Type *Ty[3];
  unsigned K[3] = {};
  Value *A[3];
  for (unsigned I = 0; I < N; ++I) {
    K[I] = unsigned(pv::choose(I == 2 ? 1 : 4, "type"));
    Ty[I] = K[I] == 0   ? (llvm::Type *)E.I32
            : K[I] == 1 ? (llvm::Type *)E.P[0]
            : K[I] == 2 ? (llvm::Type *)E.P[1]
                        : (llvm::Type *)E.W.ptrTy(E.I8);
    A[I] = E.W.arg(Ty[I]);
  }
  auto *FT = E.W.fnTy(E.I32, Ty, N);
  auto *C = E.W.call(FT, E.W.arg(E.W.ptrTy(FT)), A, N);
  bool SRet = N != 0 && pv::flip("struct return");
  if (SRet)
    SRetCall = C;
  unsigned R = SRet;
  ST Want = R < N && K[R] == 1   ? E.T[0]
            : R < N && K[R] == 2 ? E.T[1]
                                 : nullptr;
  pv::ensures(getReceiverType(C) == Want,
              "the receiver is the first argument that is not the struct "
              "return, if it points to a struct");
}
PVC_CONTRACT(is_virtual) {
  Env E;
  unsigned VT = unsigned(pv::choose(3, "vtable"));
  if (VT == 1)
    E.vtable(E.T[0], {});
  if (VT == 2)
    E.vtable(E.T[0], {E.Caller});
  E.vtable(E.T[1], {E.Caller});
  bool Slot = pv::flip("slot");
  Value *Op = Slot ? E.slot(E.FT, E.W.constInt(E.I64, pv::any<uint64_t>("s")))
                   : E.load(E.W.arg(E.W.ptrTy(E.W.ptrTy(E.FT))), E.W.ptrTy(E.FT));
  bool Rec = pv::flip("receiver");
  auto *C = E.call(Rec ? E.FT : E.fn(E.I32, E.I32), Op,
                   {Rec ? (Value *)E.W.arg(E.P[0]) : E.W.arg(E.I32)});
  pv::ensures(isVirtualCall(C, *E.VTP) == (Slot && Rec && VT == 2),
              "a call through a table slot with a receiver whose class has "
              "virtual functions is a virtual call; nothing else is");
  pv::ensures(!isVirtualCall(E.load(E.W.arg(E.P[0]), E.I32), *E.VTP),
              "other statements are no virtual calls");
  pv::ensures((E.VTP->getVFTableOrNull(E.T[0]) != nullptr) == (VT != 0) &&
                  E.VTP->getVFTableOrNull(E.T[2]) == nullptr,
              "the table of a type is the one recorded for it");
}

// ---- signatures ------------------------------------------------------------
namespace {
/// May an actual of type A be passed as a formal of type B? (C-style and
/// inheritance polymorphism)
bool compat(llvm::Type *A, llvm::Type *B) {
  if (A == B)
    return true;
  if (A->isPointerTy() && B->isPointerTy()) {
    auto *EA = A->getNonOpaquePointerElementType();
    auto *EB = B->getNonOpaquePointerElementType();
    return EB->isIntegerTy(8) || compat(EA, EB);
  }
  return A->isStructTy() && B->isStructTy();
}
llvm::Type *anyTy(Env &E, const char *N, bool Ret = false) {
  switch (pv::choose(Ret ? 7 : 6, N)) {
  case 0:
    return E.I32;
  case 1:
    return E.I64;
  case 2:
    return E.P[0];
  case 3:
    return E.P[1];
  case 4:
    return E.W.ptrTy(E.I8);
  case 5:
    return E.W.ptrTy(E.P[1]);
  default:
    return E.W.voidTy();
  }
}
} // namespace
PVC_CONTRACT(consistent_call) {
  pv_note_bounded_("two formals, types of depth two");
  Env E;
  llvm::Type *Void = E.W.voidTy();
  unsigned NC = unsigned(pv::choose(3, "actuals")), NF = unsigned(pv::choose(3, "formals"));
  bool FVar = pv::flip("callee variadic");
  bool CVar = pv::flip("call variadic");
  llvm::Type *CT[2], *TT[2];
  Value *A[3];
  bool Fits = NC == NF;
  for (unsigned I = 0; I < NC; ++I) {
    CT[I] = NC == 2 && I == 0 ? (llvm::Type *)E.P[0] : anyTy(E, "actual");
    A[I] = E.W.arg(CT[I]);
  }
  for (unsigned I = 0; I < NF; ++I) {
    TT[I] = NF == 2 && I == 0 ? (llvm::Type *)E.P[1] : anyTy(E, "formal");
    if (I < NC)
      Fits = Fits && compat(CT[I], TT[I]);
  }
  auto *CFT = E.W.fnTy(Void, CT, NC, CVar);
  auto *Callee = E.W.func(E.W.fnTy(Void, TT, NF, FVar));
  // variadic calls may pass more
  bool More = CVar && pv::flip("more actuals");
  A[NC] = E.W.arg(E.P[2]);
  auto *C = E.W.call(CFT, E.W.arg(E.W.ptrTy(CFT)), A, NC + More);
  Fits = Fits && (!More || FVar);
  pv::ensures(isConsistentCall(C, Callee) == Fits,
              "a function can be called where its formals accept the "
              "arguments");
}
PVC_CONTRACT(consistent_return) {
  Env E;
  llvm::Type *RC = anyTy(E, "expected result", true);
  llvm::Type *RF = anyTy(E, "result", true);
  bool Same = pv::flip("same type");
  if (Same)
    RF = RC;
  auto *CFT = E.fn(RC, E.P[0]);
  auto *Callee = E.W.func(E.fn(RF, E.P[1]));
  Value *A[] = {E.W.arg(E.P[0])};
  auto *C = E.W.call(CFT, E.W.arg(E.W.ptrTy(CFT)), A, 1);
  bool Void = RC->isVoidTy() && RF->isVoidTy() && !Same;
  if (!Void)
    pv::ensures(isConsistentCall(C, Callee) == compat(RF, RC),
                "the result of the callee may be of the expected type or "
                "covariant");
  pv::ensures(matchesSignature(Callee, CFT, true) == false,
              "an exact match needs equal types");
  auto *Eq = E.W.func(E.fn(RC, E.P[0]));
  pv::ensures(matchesSignature(Eq, CFT, true) && isConsistentCall(C, Eq),
              "equal signatures match");
  pv::ensures(matchesSignature(CFT, E.fn(RF, E.P[0])) == (RC == RF) &&
                  !matchesSignature(CFT, E.fn(RC, E.P[1])) &&
                  !matchesSignature(nullptr, CFT, false),
              "equal signatures match");
}

// ---- virtual calls ---------------------------------------------------------
namespace {
enum Entry { Null, Good, Other, Bad, Pure, NoTable, NEntries };
struct Virt : Env {
  llvm::Function *Fn[6]; // per type: Good, Other
  llvm::Function *BadF, *PureF;
  unsigned Kind[3];
  unsigned Slot;
  llvm::CallInst *C;
  Virt() {
    for (unsigned I = 0; I < 6; ++I)
      Fn[I] = named(W.func(fn(I32, P[I / 2])), "f");
    BadF = named(W.func(fn(I32, I32)), "bad");
    PureF = named(W.func(FT), "__cxa_pure_virtual");
    Slot = unsigned(pv::choose(3, "slot"));
    C = call(FT, slot(FT, W.constInt(I64, Slot)), {W.arg(P[0])});
    SubRoot = T[0];
    for (unsigned I = 0; I < 3; ++I) {
      Kind[I] = unsigned(pv::choose(I == 2 ? 2 : unsigned(NEntries), "entry"));
      if (Kind[I] == NoTable)
        continue;
      F_t Here = Kind[I] == Null    ? nullptr
                 : Kind[I] == Good  ? Fn[2 * I]
                 : Kind[I] == Other ? Fn[2 * I + 1]
                 : Kind[I] == Bad   ? BadF
                                    : PureF;
      // the other slot holds the other function
      std::vector<F_t> V(2, Fn[2 * I + (Kind[I] == Good)]);
      if (Slot < 2)
        V[Slot] = Here;
      vtable(T[I], std::move(V));
    }
  }
  F_t target(unsigned I) const {
    if (Slot == 2)
      return nullptr;
    return Kind[I] == Good ? Fn[2 * I] : Kind[I] == Other ? Fn[2 * I + 1] : nullptr;
  }
  void check(const FSet &Got, const bool (&Sub)[3], const char *L) const {
    unsigned N = 0;
    for (unsigned I = 0; I < 3; ++I) {
      if (!Sub[I] || !target(I))
        continue;
      ++N;
      pv::ensures(Got.count(target(I)) != 0, L);
    }
    pv::ensures(Got.size() == N, L);
  }
  bool any(const bool (&Sub)[3]) const {
    return (Sub[0] && target(0)) || (Sub[1] && target(1)) ||
           (Sub[2] && target(2));
  }
};
} // namespace
PVC_CONTRACT(cha_virtual) {
  pv_note_bounded_("three types, tables with two functions");
  Virt E;
  bool Sub[3];
  for (unsigned I = 0; I < 3; ++I)
    if ((Sub[I] = pv::flip("subtype")))
      E.Sub.insert(E.T[I]);
  CHAResolver R(E.DB, E.VTP, E.TH);
  E.check(R.resolveVirtualCall(E.C), Sub,
          "class hierarchy analysis: the functions at the called slot of all "
          "subtypes, unless pure or of an unfitting type");
}
PVC_CONTRACT(rta_virtual) {
  pv_note_bounded_("three types, tables with two functions");
  Virt E;
  bool Sub[3], Both[3];
  alignas(16) char Buf[sizeof(RTAResolver)] = {};
  RTAResolver R(E.DB, E.VTP, E.TH);
  for (unsigned I = 0; I < 3; ++I) {
    if ((Sub[I] = I == 0 || pv::flip("subtype")))
      E.Sub.insert(E.T[I]);
    bool A = pv::flip("allocated");
    if (A)
      R.AllocatedStructTypes.push_back(E.T[I]);
    Both[I] = Sub[I] && A;
  }
  auto Got = R.resolveVirtualCall(E.C);
  if (E.any(Both))
    E.check(Got, Both,
            "rapid type analysis: the functions at the called slot of all "
            "allocated subtypes");
  else
    E.check(Got, Sub,
            "rapid type analysis falls back to all subtypes when no allocated "
            "one has the function");
}
namespace {
std::set<ST> *GraphTypes;
std::set<ST> fakeGraph(void *, ST T) {
  pv::ensures(T == SubRoot, "the types that reach the receiver are asked for");
  return *GraphTypes;
}
} // namespace
PVC_CONTRACT(dta_virtual) {
  pv_note_bounded_("three types, tables with two functions");
  Virt E;
  bool Sub[3], Reach[3];
  std::set<ST> G;
  for (unsigned I = 0; I < 3; ++I) {
    if ((Sub[I] = I == 0 || pv::flip("subtype")))
      E.Sub.insert(E.T[I]);
    if ((Reach[I] = pv::flip("reaches")))
      G.insert(E.T[I]);
  }
  GraphTypes = &G;
  pv_replace_(reinterpret_cast<void *>(
                  &_ZN3psr15CachedTypeGraph8getTypesEPKN4llvm10StructTypeE),
              reinterpret_cast<void *>(&fakeGraph));
  DTAResolver R(E.DB, E.VTP, E.TH);
  auto Got = R.resolveVirtualCall(E.C);
  if (E.any(Reach))
    E.check(Got, Reach,
            "declared type analysis: the functions at the called slot of all "
            "types cast to the receiver's");
  else
    E.check(Got, Sub,
            "declared type analysis falls back to all subtypes when it has no "
            "target");
}

// ---- allocated types -------------------------------------------------------
namespace {
const llvm::Function *HeapFn;
bool fakeHeap(const llvm::Function *F) noexcept { return F == HeapFn; }
} // namespace
PVC_CONTRACT(rta_allocated) {
  pv_note_bounded_("one allocation of a type per program");
  Env E;
  pv::replace(static_cast<bool (*)(const llvm::Function *) noexcept>(
                  &isHeapAllocatingFunction),
              &fakeHeap);
  auto *I8P = E.W.ptrTy(E.I8);
  HeapFn = E.W.func(E.fn(I8P, E.I64));
  auto *Plain = E.W.func(E.fn(I8P, E.I64));
  auto *Ctor = E.W.func(E.fn(E.W.voidTy(), E.P[0]));
  auto *OtherCtor = E.W.func(E.fn(E.W.voidTy(), E.P[1]));
  auto *NoArgs = E.W.func(E.W.fnTy(E.W.voidTy(), nullptr, 0, true));
  E.inModule(Plain);
  E.inModule(E.Caller);
  E.load(E.W.arg(E.P[0]), E.I32);
  auto ArrTy = [&](llvm::Type *El) {
    // ArrayType: the element type, contained, and the number of elements
    auto *T = static_cast<pv::ir::RawType *>(E.W.raw(sizeof(llvm::ArrayType)));
    auto *P = reinterpret_cast<pv::ir::RawType *>(E.W.ptrTy(El));
    *T = *P;
    T->IdAndData = llvm::Type::ArrayTyID;
    T->Pointee = El;
    *reinterpret_cast<uint64_t *>(T + 1) = 3;
    return reinterpret_cast<llvm::Type *>(T);
  };
  auto Use = [](llvm::Instruction *I, unsigned Op) {
    auto *R = reinterpret_cast<pv::ir::RawInst *>(I);
    auto *U = reinterpret_cast<pv::ir::RawUse *>(R) -
              (R->NumOps & 0x7ffffff) + Op;
    auto *V = reinterpret_cast<pv::ir::RawValue *>(U->Val);
    U->Next = V->UseList;
    V->UseList = U;
  };
  bool Alloc = false;
  switch (pv::choose(6, "allocation")) {
  case 0: // local object
    E.W.append(E.BB, E.W.alloca_(E.T[0], E.W.constInt(E.I32, 1)));
    Alloc = true;
    break;
  case 1: // local array of objects
    E.W.append(E.BB, E.W.alloca_(ArrTy(ArrTy(E.T[0])), E.W.constInt(E.I32, 1)));
    Alloc = true;
    break;
  case 2: // local pointer
    E.W.append(E.BB, E.W.alloca_(E.P[0], E.W.constInt(E.I32, 1)));
    break;
  case 3: // global object or array
    E.inModule(E.W.gvar(
        E.W.ptrTy(pv::flip("array") ? ArrTy(E.T[0]) : (llvm::Type *)E.T[0]),
        nullptr));
    Alloc = true;
    break;
  case 4: // global pointer
    E.inModule(E.W.gvar(E.W.ptrTy(E.P[0]), nullptr));
    break;
  default: { // call, cast and use
    bool Heap = pv::flip("heap");
    auto *Fn = Heap ? const_cast<llvm::Function *>(HeapFn) : Plain;
    auto *Mem = E.call(Fn->getFunctionType(), Fn,
                       {E.W.arg(E.I64)});
    if (pv::flip("other use"))
      Use(E.load(Mem, E.I8), 0);
    if (!pv::flip("cast"))
      break;
    // uses are visited last to first
    bool Bytes = pv::flip("also cast to something that is no class");
    auto CastToPtr = [&] {
      Use(E.W.append(E.BB, E.W.inst(Instruction::BitCast, E.W.ptrTy(E.I32), {Mem})), 0);
    };
    if (Bytes && pv::flip("first"))
      CastToPtr();
    auto *Cast = E.W.append(
        E.BB, E.W.inst(Instruction::BitCast, E.P[0], {Mem}));
    Use(Cast, 0);
    if (pv::flip("loaded from"))
      Use(E.load(Cast, E.I32), 0);
    unsigned K = unsigned(pv::choose(5, "passed to"));
    llvm::Function *Callee = K == 1   ? Ctor
                             : K == 2 ? OtherCtor
                             : K == 3 ? NoArgs
                                      : nullptr;
    if (Callee)
      Use(E.call(Callee->getFunctionType(), Callee, {Cast}), 0);
    if (K == 4)
      Use(E.call(Ctor->getFunctionType(),
                 E.W.arg(E.W.ptrTy(Ctor->getFunctionType())), {Cast}),
          0);
    Alloc = Heap && K == 1;
    if (Bytes)
      CastToPtr();
  }
  }
  RTAResolver R(E.DB, E.VTP, E.TH);
  auto &A = R.AllocatedStructTypes;
  bool Found = std::find(A.begin(), A.end(), E.T[0]) != A.end();
  pv::ensures(Found == Alloc,
              "allocated are the types of local and global objects and arrays "
              "of them, and those constructed on the heap");
  pv::ensures(std::find(A.begin(), A.end(), E.T[1]) == A.end() &&
                  std::find(A.begin(), A.end(), E.T[2]) == A.end(),
              "no other type is allocated");
}

// ---- function pointers -----------------------------------------------------
PVC_CONTRACT(naive_pointer) {
  pv_note_bounded_("a module of a few functions");
  Env E;
  llvm::Function *F[3];
  bool Want[3];
  for (unsigned I = 0; I < 3; ++I) {
    bool Fits = pv::flip("fits");
    F[I] = E.W.func(Fits ? E.FT : E.fn(E.I32, E.I64), 0, pv::flip("declared"));
    bool Taken = pv::flip("address taken");
    reinterpret_cast<pv::ir::RawFunc *>(F[I])->Comdat = Taken ? F[I] : nullptr;
    Want[I] = Fits && Taken;
    E.inModule(F[I]);
  }
  bool Method = pv::flip("on an object with virtual functions");
  E.vtable(E.T[0], Method ? std::vector<F_t>{F[0]} : std::vector<F_t>{});
  E.Sub.insert(E.T[0]);
  SubRoot = E.T[0];
  auto *C = E.call(E.FT, E.load(E.W.arg(E.W.ptrTy(E.W.ptrTy(E.FT))), E.W.ptrTy(E.FT)),
                   {E.W.arg(E.P[0])});
  CHAResolver R(E.DB, E.VTP, E.TH);
  is(R.resolveIndirectCall(C), {F[0], F[1], F[2]}, {Want[0], Want[1], Want[2]},
     "a call of a function pointer may reach every function whose address is "
     "taken and that accepts the arguments");
  NOResolver NR(E.DB, E.VTP);
  pv::ensures(NR.resolveIndirectCall(C).empty(), "no resolution, no targets");
}
PVC_CONTRACT(dispatch) {
  Env E;
  auto *F = named(E.W.func(E.FT), "f"), *G = named(E.W.func(E.FT), "g");
  reinterpret_cast<pv::ir::RawFunc *>(G)->Comdat = G;
  E.inModule(F);
  E.inModule(G);
  bool HasTable = pv::flip("virtual functions");
  E.vtable(E.T[0], HasTable ? std::vector<F_t>{F} : std::vector<F_t>{});
  E.Sub.insert(E.T[0]);
  SubRoot = E.T[0];
  bool Member = pv::flip("member of a struct");
  Value *Op;
  if (Member) {
    auto *PF = E.W.ptrTy(E.FT);
    auto *S = E.W.structTy({PF});
    Op = E.load(E.W.append(E.BB, E.W.gep(S, PF,
                                         {E.W.arg(E.W.ptrTy(S)),
                                          E.W.constInt(E.I32, 0),
                                          E.W.constInt(E.I32, 0)})),
                PF);
  } else {
    Op = E.slot(E.FT, E.W.constInt(E.I64, 0));
  }
  auto *C = E.call(E.FT, Op, {E.W.arg(E.P[0])});
  bool Virtual = !Member && HasTable;
  CHAResolver R(E.DB, E.VTP, E.TH);
  is(R.resolveIndirectCall(C), {F, G}, {Virtual, !Virtual},
     "virtual calls are resolved through the vtables, all others as calls of "
     "function pointers");
}

// ---- vtables in the IR -----------------------------------------------------
PVC_CONTRACT(vtable_from_ir) {
  pv_note_bounded_("two tables with two functions");
  Env E;
  auto *I8P = E.W.ptrTy(E.I8);
  F_t Want[4] = {};
  llvm::Constant *Arr[2];
  unsigned NA = unsigned(1 + pv::choose(2, "tables")), N = 0;
  auto *TI = named(E.W.gvar(E.W.ptrTy(E.I8), nullptr), "_ZTI1A");
  for (unsigned A = 0; A < NA; ++A) {
    Value *Ops[8];
    unsigned K = 0;
    // offsets to virtual bases, the offset to the top, the type information
    bool RTTI = A == 1 || pv::flip("type information");
    unsigned VB = A == 0 && RTTI ? unsigned(pv::choose(3, "virtual base offsets")) : 0;
    for (unsigned I = 0; I < VB; ++I)
      Ops[K++] = E.cexpr(Instruction::IntToPtr, I8P, {E.W.constInt(E.I64, 8)});
    Ops[K++] = E.W.nullPtr(I8P);
    Ops[K++] = RTTI ? (Value *)E.cexpr(Instruction::BitCast, I8P, {TI})
                    : E.W.nullPtr(I8P);
    for (unsigned I = 0; I < 2; ++I) {
      switch (pv::choose(A == 1 ? 1 : 4, "entry")) {
      case 0: {
        auto *F = named(E.W.func(E.FT), "f");
        Want[N++] = F;
        Ops[K++] = E.cexpr(Instruction::BitCast, I8P, {F});
        break;
      }
      case 1: {
        auto *F = named(E.W.func(E.FT), "f");
        auto Alias = [&](Value *Of) {
          Value *O[] = {Of};
          return reinterpret_cast<Value *>(E.W.rawUser<pv::ir::RawGlobal>(
              Value::GlobalAliasVal, F->getType(), O, 1));
        };
        Want[N++] = F;
        Ops[K++] = E.cexpr(Instruction::BitCast, I8P,
                           {pv::flip("alias of an alias") ? Alias(Alias(F))
                                                          : Alias(F)});
        break;
      }
      case 2:
        Want[N++] = nullptr;
        Ops[K++] = E.W.nullPtr(I8P);
        break;
      default: // a thing that is no function
        Want[N++] = nullptr;
        Ops[K++] = E.cexpr(Instruction::BitCast, I8P,
                           {named(E.W.gvar(E.W.ptrTy(E.I8), nullptr), "g")});
      }
    }
    Arr[A] = reinterpret_cast<llvm::Constant *>(
        E.W.rawUser<pv::ir::RawValue>(Value::ConstantArrayVal, I8P, Ops, K));
  }
  auto *S = reinterpret_cast<llvm::ConstantStruct *>(
      NA == 1 ? E.constant(Value::ConstantStructVal, E.T[0], {Arr[0]})
              : E.constant(Value::ConstantStructVal, E.T[0], {Arr[0], Arr[1]}));
  auto Got = LLVMVFTable::getVFVectorFromIRVTable(*S);
  bool Eq = Got.size() == N;
  for (unsigned I = 0; I < N && Eq; ++I)
    Eq = Got[I] == Want[I];
  pv::ensures(Eq, "the virtual functions are the entries after the type "
                  "information, in order; aliases stand for their function");
  LLVMVFTable VT(Got);
  unsigned Idx = pv::any<unsigned>("index");
  pv::ensures(VT.getFunction(Idx) == (Idx < N ? Want[Idx < N ? Idx : 0] : nullptr),
              "beyond the table there are no functions");
}

// ---- resolution by alias information --------------------------------------
namespace {
struct AnyAlias {
  using n_t = const llvm::Instruction *;
  using v_t = const Value *;
  using Ref = LLVMAliasInfoRef;
  Ref::AliasSetTy Set;
  Ref::AliasSetTy *Box = &Set;
  v_t Of = nullptr;
  n_t At = nullptr;
  bool Inter = false;
  struct Pair {
    v_t A, B;
    unsigned Num;
  };
  Pair Got[8];
  unsigned NumGot = 0;
  bool isInterProcedural() const noexcept { return Inter; }
  AliasAnalysisType getAliasAnalysisType() const noexcept {
    return AliasAnalysisType::Invalid;
  }
  AliasResult alias(v_t, v_t, n_t) { return AliasResult::MayAlias; }
  Ref::AliasSetPtrTy getAliasSet(v_t P, n_t I) {
    pv::ensures(P == Of && I == At,
                "the aliases of the called pointer at the call are asked for");
    return Ref::AliasSetPtrTy(&Box);
  }
  std::unique_ptr<Ref::AliasSetTy> getReachableAllocationSites(v_t, bool, n_t) {
    return nullptr;
  }
  bool isInReachableAllocationSites(v_t, v_t, bool, n_t) { return false; }
  void print(llvm::raw_ostream &) const {}
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(AnyAlias &) {}
  void introduceAlias(v_t A, v_t B, n_t I, AliasResult R) {
    pv::ensures(I == At && A && B, "aliases are introduced at the call");
    for (unsigned K = 0; K < NumGot; ++K)
      if ((Got[K].A == A && Got[K].B == B) || (Got[K].A == B && Got[K].B == A))
        return;
    if (NumGot == 8)
      pv_abort_path_("too many aliases");
    Got[NumGot++] = {A, B, 1};
  }
  AnalysisProperties getAnalysisProperties() const noexcept {
    return AnalysisProperties::None;
  }
  bool has(v_t A, v_t B) const {
    for (unsigned K = 0; K < NumGot; ++K)
      if ((Got[K].A == A && Got[K].B == B) || (Got[K].A == B && Got[K].B == A))
        return true;
    return false;
  }
};
} // namespace
PVC_CONTRACT(otf_virtual) {
  pv_note_bounded_("two tables with two functions among the aliases");
  Env E;
  AnyAlias AA;
  auto *I8P = E.W.ptrTy(E.I8);
  uint64_t Slot = pv::choose(3, "slot");
  auto *Op = E.slot(E.FT, E.W.constInt(E.I64, Slot));
  auto *C = E.call(E.FT, Op, {E.W.arg(E.P[0])});
  AA.Of = Op;
  AA.At = C;
  E.vtable(E.T[0], {E.Caller});
  llvm::Function *F[2][2];
  bool Want[2] = {};
  for (unsigned I = 0; I < 2; ++I) {
    unsigned K = I == 1 ? unsigned(pv::choose(2, "entry")) : unsigned(pv::choose(8, "alias"));
    F[I][0] = named(E.W.func(E.FT), "f");
    F[I][1] = K == 1   ? named(E.W.func(E.fn(E.I32, E.I64)), "f")
              : K == 2 ? named(E.W.func(E.FT), "__cxa_pure_virtual")
                       : named(E.W.func(E.FT), "f");
    Value *Ent[4] = {E.W.nullPtr(I8P), E.W.nullPtr(I8P)};
    for (unsigned J = 0; J < 2; ++J)
      Ent[2 + J] = J == 1 && K == 3
                       ? E.W.nullPtr(I8P)
                       : (Value *)E.cexpr(Instruction::BitCast, I8P, {F[I][J]});
    // the last one is shorter
    auto *Arr = reinterpret_cast<llvm::Constant *>(
        E.W.rawUser<pv::ir::RawValue>(Value::ConstantArrayVal, I8P, Ent, K == 7 ? 3 : 4));
    auto *Tab = E.constant(Value::ConstantStructVal, E.T[0], {Arr});
    auto *G = E.W.gvar(E.W.ptrTy(E.T[0]), K == 4 ? nullptr : Tab, true);
    if (K != 6)
      named(G, K == 5 ? "table" : "_ZTV1A");
    AA.Set.insert(G);
    // nothing is called from tables that are not known to be vtables
    bool VTab = K != 4 && K != 5 && K != 6;
    Want[I] = VTab && (Slot == 0 || (Slot == 1 && K == 0));
  }
  AA.Set.insert(E.W.arg(I8P));
  AA.Set.insert(Op);
  OTFResolver R(E.DB, E.VTP, LLVMAliasInfoRef(&AA));
  unsigned S = Slot == 1;
  is(R.resolveIndirectCall(C), {F[0][S], F[1][S], F[0][!S], F[1][!S]},
     {Want[0], Want[1], false, false},
     "the functions at the called slot of every vtable the pointer may come "
     "from, unless pure or of an unfitting type");
}
PVC_CONTRACT(otf_pointer) {
  pv_note_bounded_("two aliased constants, initializers nested twice");
  Env E;
  AnyAlias AA;
  auto *PF = E.W.ptrTy(E.FT);
  auto *PPF = E.W.ptrTy(PF);
  bool Var = pv::flip("loaded");
  Value *Op = Var ? (Value *)E.load(E.W.arg(PPF), PF) : E.W.arg(PF);
  auto *C = E.call(E.FT, Op, {E.W.arg(E.P[0])});
  AA.Of = Op;
  AA.At = C;
  AA.Set.insert(Op);
  llvm::Function *F[3];
  bool Want[3] = {};
  auto Struct = [&](std::initializer_list<Value *> Fs) {
    return E.constant(pv::flip("array") ? Value::ConstantArrayVal
                                        : Value::ConstantStructVal,
                      E.T[0], Fs);
  };
  auto Global = [&](llvm::Constant *Init) {
    return E.W.gvar(E.W.ptrTy(E.T[0]), Init);
  };
  bool Fits[3];
  for (unsigned I = 0; I < 3; ++I) {
    Fits[I] = I == 2 || pv::flip("fits");
    F[I] = E.W.func(Fits[I] ? E.FT : E.fn(E.I32, E.I64));
  }
  auto *Zero = E.W.constInt(E.I32, 0);
  bool Seen[3] = {};
  switch (pv::choose(8, "alias")) {
  case 0: // the function itself
    AA.Set.insert(F[0]);
    Seen[0] = true;
    break;
  case 1: // no constant
    AA.Set.insert(E.W.arg(PF));
    AA.Set.insert(E.W.alloca_(PF, Zero));
    break;
  case 2: // a table
    AA.Set.insert(Global(Struct({F[0], Zero, F[1]})));
    Seen[0] = Seen[1] = true;
    break;
  case 3: // part of a table
    AA.Set.insert(E.cexpr(Instruction::GetElementPtr, PPF,
                          {Global(Struct({F[0]})), Zero, Zero}));
    AA.Set.insert(F[1]);
    Seen[0] = Seen[1] = true;
    break;
  case 4: // declared table
    AA.Set.insert(Global(nullptr));
    AA.Set.insert(F[2]);
    Seen[2] = true;
    break;
  case 5: // nested, casted
    AA.Set.insert(Global(Struct(
        {Struct({Zero, E.cexpr(Instruction::BitCast, PF, {F[0]})}), F[1]})));
    Seen[0] = Seen[1] = true;
    break;
  case 6: // a table that points to another one
    AA.Set.insert(Global(Struct({Global(Struct({F[0]})), Global(nullptr),
                                 E.cexpr(Instruction::PtrToInt, E.I64, {F[2]}),
                                 F[1]})));
    Seen[0] = Seen[1] = true;
    break;
  default: { // tables that point to each other
    auto *G = Global(nullptr);
    auto *S = Struct({G, F[0]});
    auto *H = Global(S);
    auto *S2 = Struct({Struct({F[2]}), H, F[1]});
    auto *R = reinterpret_cast<pv::ir::RawValue *>(G);
    reinterpret_cast<pv::ir::RawUse *>(R)[-1].Val = S2;
    R->NumOps = 1;
    AA.Set.insert(G);
    Seen[0] = Seen[1] = Seen[2] = true;
  }
  }
  for (unsigned I = 0; I < 3; ++I)
    Want[I] = Seen[I] && Fits[I];
  OTFResolver R(E.DB, E.VTP, LLVMAliasInfoRef(&AA));
  is(R.resolveIndirectCall(C), {F[0], F[1], F[2]}, {Want[0], Want[1], Want[2]},
     "a call of a function pointer may reach every function among its aliases "
     "and in the tables among them, if it accepts the arguments");
}
PVC_CONTRACT(otf_aliases) {
  pv_note_bounded_("two formals, two variadic actuals, two targets");
  Env E;
  AnyAlias AA;
  AA.Inter = pv::flip("inter-procedural");
  unsigned NA = unsigned(pv::choose(3, "actuals")), NF = unsigned(pv::choose(3, "formals"));
  llvm::Type *AT[2], *FTy[2];
  Value *A[2];
  bool AP[2] = {}, FP[2] = {};
  for (unsigned I = 0; I < NA; ++I) {
    AP[I] = pv::flip("actual is a pointer");
    AT[I] = AP[I] ? (llvm::Type *)E.P[0] : E.I32;
    A[I] = E.W.arg(AT[I]);
  }
  for (unsigned I = 0; I < NF; ++I) {
    FP[I] = pv::flip("formal is a pointer");
    FTy[I] = FP[I] ? (llvm::Type *)E.P[1] : E.I32;
  }
  bool Var = pv::flip("variadic"), Decl = pv::flip("declaration");
  bool RP = pv::flip("returns a pointer");
  llvm::Type *Res = RP ? (llvm::Type *)E.P[1] : E.I32;
  auto *CFT = E.W.fnTy(Res, AT, NA);
  auto *C = E.W.call(CFT, E.W.arg(E.W.ptrTy(CFT)), A, NA);
  AA.At = C;
  auto *F = E.W.func(E.W.fnTy(Res, FTy, NF, Var), 0, true);
  Value *VA = nullptr, *R1 = nullptr, *R2 = nullptr;
  if (!Decl) {
    auto *B = E.W.block(F);
    auto *B2 = E.W.block(F);
    R1 = E.W.arg(Res);
    R2 = E.W.arg(Res);
    // a local array that is not the argument list comes first
    auto *Tag = E.W.structTy({E.I32});
    reinterpret_cast<pv::ir::RawType *>(Tag)->IdAndData &= ~(4u << 8);
    static char Entry;
    reinterpret_cast<pv::ir::RawType *>(Tag)->Pointee = &Entry;
    auto Arr = [&](llvm::Type *El) {
      auto *T = static_cast<pv::ir::RawType *>(E.W.raw(sizeof(llvm::ArrayType)));
      auto *P = reinterpret_cast<pv::ir::RawType *>(E.W.ptrTy(El));
      *T = *P;
      T->IdAndData = llvm::Type::ArrayTyID;
      T->Pointee = El;
      *reinterpret_cast<uint64_t *>(T + 1) = 1;
      return reinterpret_cast<llvm::Type *>(T);
    };
    E.W.append(B, E.W.alloca_(Arr(E.I32), E.W.constInt(E.I32, 1)));
    E.W.append(B, E.W.alloca_(Tag, E.W.constInt(E.I32, 1)));
    if (Var && pv::flip("argument list")) {
      VA = E.W.append(B, E.W.alloca_(Arr(Tag), E.W.constInt(E.I32, 1)));
    }
    E.W.append(B, E.W.inst(Instruction::Ret, E.W.voidTy(), {R1}));
    E.W.append(B2, E.W.inst(Instruction::Ret, E.W.voidTy(), {R2}));
  }
  FSet Targets;
  Targets.insert(F);
  auto *Ext = E.W.func(E.W.fnTy(Res, FTy, NF, Var));
  Targets.insert(Ext);
  OTFResolver R(E.DB, E.VTP, LLVMAliasInfoRef(&AA));
  R.handlePossibleTargets(C, Targets);
  unsigned N = 0;
  bool On = !Decl && !AA.Inter;
  for (unsigned I = 0; I < NA; ++I) {
    for (unsigned J = 0; J < NF; ++J) {
      bool Want = On && I == J && AP[I] && FP[J];
      N += Want;
      pv::ensures(AA.has(A[I], F->getArg(J)) == Want,
                  "pointers passed to a target alias its formals");
    }
    if (VA) {
      bool Want = On && I >= NF && AP[I];
      N += Want;
      pv::ensures(AA.has(A[I], VA) == Want,
                  "pointers passed to a variadic target alias its argument "
                  "list");
    }
  }
  if (On && RP) {
    N += 2;
    pv::ensures(AA.has(C, R1) && AA.has(C, R2),
                "the result of the call aliases everything a target returns");
  }
  pv::ensures(AA.NumGot == N, "no other aliases are introduced");
}
PVC_CONTRACT(create) {
  Env E;
  AnyAlias AA;
  pv_replace_(pv::mfp(&RTAResolver::resolveAllocatedStructTypes),
              reinterpret_cast<void *>(+[](void *) {}));
  constexpr CallGraphAnalysisType K[] = {
      CallGraphAnalysisType::NORESOLVE, CallGraphAnalysisType::CHA,
      CallGraphAnalysisType::RTA, CallGraphAnalysisType::DTA,
      CallGraphAnalysisType::OTF};
  const char *N[] = {"NOResolver", "CHA", "RTA", "DTA", "OTF"};
  unsigned I = unsigned(pv::choose(5, "kind"));
  auto R = Resolver::create(K[I], E.DB, E.VTP, E.TH, LLVMAliasInfoRef(&AA));
  pv::ensures(R->str() == N[I], "the resolver is of the wanted kind");
  pv::ensures(R->mutatesHelperAnalysisInformation() == (I == 4) ||
                  I == 0 || I == 3,
              "alias-based resolution changes the alias information, so that "
              "calls are resolved again until nothing changes");
}
