// In-memory LLVM IR objects for contracts: the memory layout of LLVM 14's IR
// classes, filled in directly, so that phasar's code (and LLVM's inline
// accessors) run on them unchanged.  `World` owns everything it makes.
#pragma once
#include "pv/pv.h"

#include "llvm/IR/Constants.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"

#include <cstdlib>
#include <cstring>
#include <initializer_list>

namespace pv::ir {
struct RawType {
  void *Ctx;
  uint32_t IdAndData;
  uint32_t NumContained;
  void *const *Contained;
  void *Pointee;
};
struct RawValue {
  void *VTy;
  void *UseList;
  uint8_t SubclassID;
  uint8_t Flags;
  uint16_t SubclassData;
  uint32_t NumOps;
};
struct RawUse {
  void *Val, *Next, *Prev, *Parent;
};
struct RawInst : RawValue {
  void *Prev, *Next;
  void *Parent;
  void *Dbg;
  uint32_t Order;
  uint32_t SSID;
};
struct RawCall : RawInst {
  void *Attrs;
  void *FTy;
};
struct RawGEP : RawInst {
  void *SrcTy;
  void *ResTy;
};
struct RawBB : RawValue {
  void *Prev, *Next;
  void *SPrev, *SNext;
  void *Parent;
};
struct RawConstInt : RawValue {
  uint64_t Val;
  uint32_t Width;
  uint32_t Pad;
};
struct RawArg : RawValue {
  void *Parent;
  uint32_t ArgNo;
  uint32_t Pad;
};
struct RawGlobal : RawValue {
  void *ValueType;
  uint32_t Bits;
  uint32_t IntID;
  void *Parent;
  void *Comdat;
  void *Prev, *Next;
};
struct RawGVar : RawGlobal {
  void *Attrs;
  uint8_t IsConst;
  uint8_t Pad[7];
};
struct RawFunc : RawGlobal {
  void *BBPrev, *BBNext;
  void *Args;
  uint64_t NumArgs;
  void *SymTab;
  void *Attrs;
};
static_assert(sizeof(RawValue) == sizeof(llvm::Value));
static_assert(sizeof(RawUse) == sizeof(llvm::Use));
static_assert(sizeof(RawInst) == sizeof(llvm::Instruction));
static_assert(sizeof(RawCall) == sizeof(llvm::CallInst));
static_assert(sizeof(RawGEP) == sizeof(llvm::GetElementPtrInst));
static_assert(sizeof(RawBB) == sizeof(llvm::BasicBlock));
static_assert(sizeof(RawConstInt) == sizeof(llvm::ConstantInt));
static_assert(sizeof(RawArg) == sizeof(llvm::Argument));
static_assert(sizeof(RawGVar) == sizeof(llvm::GlobalVariable));
static_assert(sizeof(RawFunc) == sizeof(llvm::Function));
static_assert(sizeof(RawType) == sizeof(llvm::PointerType));

class World {
  struct Blk {
    Blk *Next;
  };
  Blk *Head = nullptr;
  char CtxBuf[8] = {};

public:
  World() = default;
  World(const World &) = delete;
  ~World() {
    while (Head) {
      Blk *N = Head->Next;
      ::free(Head);
      Head = N;
    }
  }
  void *raw(size_t N) {
    auto *B = static_cast<Blk *>(::malloc(sizeof(Blk) + 8 + N));
    std::memset(static_cast<void *>(B), 0, sizeof(Blk) + 8 + N);
    B->Next = Head;
    Head = B;
    return reinterpret_cast<char *>(B) + 16;
  }

  // ---- types ----
  RawType *rawType(unsigned Id, unsigned Data = 0) {
    auto *T = static_cast<RawType *>(raw(sizeof(RawType)));
    T->Ctx = CtxBuf;
    T->IdAndData = Id | (Data << 8);
    return T;
  }
  llvm::IntegerType *intTy(unsigned W) {
    return reinterpret_cast<llvm::IntegerType *>(
        rawType(llvm::Type::IntegerTyID, W));
  }
  llvm::Type *voidTy() {
    return reinterpret_cast<llvm::Type *>(rawType(llvm::Type::VoidTyID));
  }
  llvm::PointerType *ptrTy(llvm::Type *To) {
    auto *T = rawType(llvm::Type::PointerTyID);
    T->Pointee = To;
    auto **C = static_cast<void **>(raw(sizeof(void *)));
    C[0] = To;
    T->Contained = C;
    T->NumContained = 1;
    return reinterpret_cast<llvm::PointerType *>(T);
  }
  llvm::StructType *structTy(std::initializer_list<llvm::Type *> Els) {
    auto *T = rawType(llvm::Type::StructTyID, 1 | 4);
    auto **C = static_cast<void **>(raw(sizeof(void *) * (Els.size() + 1)));
    size_t I = 0;
    for (auto *E : Els)
      C[I++] = E;
    T->Contained = C;
    T->NumContained = I;
    return reinterpret_cast<llvm::StructType *>(T);
  }
  llvm::FunctionType *fnTy(llvm::Type *Ret, llvm::Type *const *Params,
                           size_t N, bool VarArg = false) {
    auto *T = rawType(llvm::Type::FunctionTyID, VarArg);
    auto **C = static_cast<void **>(raw(sizeof(void *) * (N + 1)));
    C[0] = Ret;
    for (size_t I = 0; I < N; ++I)
      C[I + 1] = Params[I];
    T->Contained = C;
    T->NumContained = N + 1;
    return reinterpret_cast<llvm::FunctionType *>(T);
  }

  // ---- values ----
  template <typename R> R *rawVal(unsigned Id, llvm::Type *Ty) {
    auto *V = static_cast<R *>(raw(sizeof(R)));
    V->VTy = Ty;
    V->SubclassID = Id;
    return V;
  }
  template <typename R>
  R *rawUser(unsigned Id, llvm::Type *Ty, llvm::Value *const *Ops, size_t N,
             size_t Extra = 0) {
    char *M = static_cast<char *>(raw(sizeof(RawUse) * N + sizeof(R) + Extra));
    auto *U = reinterpret_cast<RawUse *>(M);
    auto *V = reinterpret_cast<R *>(M + sizeof(RawUse) * N);
    for (size_t I = 0; I < N; ++I) {
      U[I].Val = Ops[I];
      U[I].Parent = V;
    }
    V->VTy = Ty;
    V->SubclassID = Id;
    V->NumOps = N;
    return V;
  }
  /// ConstantInt of the given type with an arbitrary/concrete value.
  llvm::ConstantInt *constInt(llvm::IntegerType *Ty, uint64_t Val) {
    auto *C = rawVal<RawConstInt>(llvm::Value::ConstantIntVal, Ty);
    unsigned W = Ty->getBitWidth();
    C->Width = W;
    C->Val = W >= 64 ? Val : (Val & ((uint64_t(1) << W) - 1));
    return reinterpret_cast<llvm::ConstantInt *>(C);
  }
  /// a constant of a type of 65 to 128 bits
  llvm::ConstantInt *constWide(llvm::IntegerType *Ty, uint64_t Lo,
                               uint64_t Hi) {
    auto *C = rawVal<RawConstInt>(llvm::Value::ConstantIntVal, Ty);
    unsigned W = Ty->getBitWidth();
    auto *Words = static_cast<uint64_t *>(raw(2 * sizeof(uint64_t)));
    Words[0] = Lo;
    Words[1] = W >= 128 ? Hi : (Hi & ((uint64_t(1) << (W - 64)) - 1));
    C->Width = W;
    C->Val = reinterpret_cast<uint64_t>(Words);
    return reinterpret_cast<llvm::ConstantInt *>(C);
  }
  llvm::Value *nullPtr(llvm::Type *Ty) {
    return reinterpret_cast<llvm::Value *>(
        rawVal<RawValue>(llvm::Value::ConstantPointerNullVal, Ty));
  }
  llvm::Argument *arg(llvm::Type *Ty, unsigned No = 0,
                      llvm::Function *F = nullptr) {
    auto *A = rawVal<RawArg>(llvm::Value::ArgumentVal, Ty);
    A->ArgNo = No;
    A->Parent = F;
    return reinterpret_cast<llvm::Argument *>(A);
  }
  llvm::GlobalVariable *gvar(llvm::Type *PtrTy, llvm::Constant *Init,
                             bool IsConst = false) {
    llvm::Value *Ops[1] = {Init};
    auto *G = rawUser<RawGVar>(llvm::Value::GlobalVariableVal, PtrTy, Ops, 1);
    G->NumOps = Init ? 1 : 0;
    G->IsConst = IsConst;
    G->ValueType = static_cast<llvm::PointerType *>(PtrTy)->getNonOpaquePointerElementType();
    return reinterpret_cast<llvm::GlobalVariable *>(G);
  }
  llvm::Instruction *inst(unsigned Opcode, llvm::Type *Ty,
                          std::initializer_list<llvm::Value *> Ops) {
    // room for the fields of the larger instruction classes
    return reinterpret_cast<llvm::Instruction *>(rawUser<RawInst>(
        llvm::Value::InstructionVal + Opcode, Ty, Ops.begin(), Ops.size(), 48));
  }
  llvm::AllocaInst *alloca_(llvm::Type *Ty, llvm::Value *Size) {
    auto *I = inst(llvm::Instruction::Alloca, ptrTy(Ty), {Size});
    *reinterpret_cast<void **>(reinterpret_cast<char *>(I) + sizeof(RawInst)) =
        Ty;
    return static_cast<llvm::AllocaInst *>(I);
  }
  llvm::GetElementPtrInst *gep(llvm::Type *SrcTy, llvm::Type *ResTy,
                               std::initializer_list<llvm::Value *> Ops) {
    auto *G = rawUser<RawGEP>(llvm::Value::InstructionVal +
                                  llvm::Instruction::GetElementPtr,
                              ptrTy(ResTy), Ops.begin(), Ops.size(), 16);
    G->SrcTy = SrcTy;
    G->ResTy = ResTy;
    return reinterpret_cast<llvm::GetElementPtrInst *>(G);
  }
  /// Call with N arguments (the callee is the last operand).
  llvm::CallInst *call(llvm::FunctionType *FTy, llvm::Value *Callee,
                       llvm::Value *const *Args, size_t N) {
    llvm::Value *Ops[9];
    for (size_t I = 0; I < N; ++I)
      Ops[I] = Args[I];
    Ops[N] = Callee;
    auto *C = rawUser<RawCall>(llvm::Value::InstructionVal +
                                   llvm::Instruction::Call,
                               FTy->getReturnType(), Ops, N + 1, 16);
    C->FTy = FTy;
    return reinterpret_cast<llvm::CallInst *>(C);
  }
  llvm::Function *func(llvm::FunctionType *FTy, unsigned IntID = 0,
                       bool Declaration = true) {
    auto *F = rawVal<RawFunc>(llvm::Value::FunctionVal, ptrTy(FTy));
    F->ValueType = FTy;
    F->IntID = IntID;
    if (IntID) // HasLLVMReservedName
      F->Bits |= 1u << 13;
    F->BBPrev = F->BBNext = &F->BBPrev;
    size_t N = FTy->getNumParams();
    auto *As = static_cast<RawArg *>(raw(sizeof(RawArg) * (N + 1)));
    for (size_t I = 0; I < N; ++I) {
      As[I].VTy = FTy->getParamType(I);
      As[I].SubclassID = llvm::Value::ArgumentVal;
      As[I].ArgNo = I;
      As[I].Parent = F;
    }
    F->Args = As;
    F->NumArgs = N;
    auto *Fn = reinterpret_cast<llvm::Function *>(F);
    if (!Declaration)
      block(Fn);
    return Fn;
  }
  /// Appends a basic block to F.
  llvm::BasicBlock *block(llvm::Function *F) {
    auto *B = rawVal<RawBB>(llvm::Value::BasicBlockVal, nullptr);
    B->SPrev = B->SNext = &B->SPrev;
    B->Parent = F;
    if (F) {
      auto *RF = reinterpret_cast<RawFunc *>(F);
      link(&RF->BBPrev, &B->Prev);
    }
    return reinterpret_cast<llvm::BasicBlock *>(B);
  }
  /// Appends I to BB.
  llvm::Instruction *append(llvm::BasicBlock *BB, llvm::Instruction *I) {
    auto *B = reinterpret_cast<RawBB *>(BB);
    auto *R = reinterpret_cast<RawInst *>(I);
    R->Parent = BB;
    link(&B->SPrev, &R->Prev);
    return I;
  }

private:
  // nodes are {Prev, Next}; Prev carries the sentinel bit of the list head
  static void link(void **Head, void **Node) {
    auto **Last = static_cast<void **>(
        reinterpret_cast<void *>(reinterpret_cast<uintptr_t>(Head[0])));
    Node[1] = Head;
    Node[0] = Last;
    Last[1] = Node;
    Head[0] = Node;
  }
};
} // namespace pv::ir
