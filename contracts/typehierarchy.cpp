// Contracts: the type hierarchies and their serialization
// (lib/PhasarLLVM/TypeHierarchy/*.cpp, LLVMVFTableProvider's construction).
//
// Debug information and type-information globals are fabricated in LLVM's
// layout; the inheritance relation is arbitrary.  DebugInfoFinder's traversal,
// symbol names (demangling) and the JSON text enter through assumed contracts.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"

#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Module.h"

#ifndef PV_NATIVE
bool psr::LLVMProjectIRDB::isValidImpl() const noexcept { return Mod != nullptr; }
template class psr::ProjectIRDBBase<psr::LLVMProjectIRDB>;
#endif

using namespace psr;
using llvm::Instruction;
using llvm::Value;
using F_t = const llvm::Function *;
using ST = const llvm::StructType *;
using DT = const llvm::DIType *;

namespace {
// ---- names
struct Name {
  const void *V;
  const char *N;
};
Name Names[24];
unsigned NumNames;
llvm::StringRef nameOf(const void *V) {
  for (unsigned I = 0; I < NumNames; ++I)
    if (Names[I].V == V)
      return Names[I].N;
  return "";
}
void name(const void *V, const char *N) { Names[NumNames++] = {V, N}; }
llvm::StringRef fakeName(const Value *V) { return nameOf(V); }
llvm::StringRef fakeStructName(ST T) { return nameOf(T); }
llvm::StringRef fakeString(const llvm::MDString *S) {
  return reinterpret_cast<const char *>(S->Entry);
}
F_t Funs[4];
const char *const FunNames[4] = {"f0", "f1", "f2", "f3"};
F_t fakeGetFunction(const void *, llvm::StringRef N) {
  for (unsigned I = 0; I < 4; ++I)
    if (N == FunNames[I])
      return Funs[I];
  return nullptr;
}
// ---- debug information
struct DIs {
  llvm::DIType *Ty[8];
  unsigned NumTy = 0;
  llvm::DISubprogram *Sp[4];
  unsigned NumSp = 0;
  bool Rev = false;
} *TheDI;
void fakeProcess(llvm::DebugInfoFinder *F, const llvm::Module &) {
  for (unsigned I = 0; I < TheDI->NumTy; ++I)
    F->TYs.push_back(TheDI->Ty[TheDI->Rev ? TheDI->NumTy - 1 - I : I]);
  for (unsigned I = 0; I < TheDI->NumSp; ++I)
    F->SPs.push_back(TheDI->Sp[I]);
}
std::vector<llvm::StructType *> *Structs;
std::vector<llvm::StructType *> fakeStructs(const llvm::Module *) {
  return *Structs;
}
std::string fakeDemangle(const std::string &S) {
  llvm::StringRef N = S;
  if (N.startswith("_ZTI"))
    return "typeinfo for " + N.drop_front(4).str();
  if (N.startswith("_ZTV"))
    return "vtable for " + N.drop_front(4).str();
  return S;
}

struct Env {
  pv::ir::World W;
  alignas(16) char ModBuf[sizeof(llvm::Module)] = {};
  alignas(16) char DBBuf[sizeof(LLVMProjectIRDB)] = {};
  llvm::Module *M = reinterpret_cast<llvm::Module *>(ModBuf);
  LLVMProjectIRDB *DB = reinterpret_cast<LLVMProjectIRDB *>(DBBuf);
  DIs DI;
  std::vector<llvm::StructType *> STs;
  llvm::IntegerType *I8 = W.intTy(8), *I32 = W.intTy(32);
  Env() {
    NumNames = 0;
    TheDI = &DI;
    Structs = &STs;
    new (&M->GlobalList) llvm::Module::GlobalListType();
    new (&DB->Mod) MaybeUniquePtr<llvm::Module>(M);
    for (unsigned I = 0; I < 4; ++I) {
      Funs[I] = W.func(W.fnTy(I32, nullptr, 0));
      name(Funs[I], FunNames[I]);
    }
    pv::replace(&llvm::DebugInfoFinder::processModule, &fakeProcess);
    pv::replace(&llvm::MDString::getString, &fakeString);
    pv::replace(&Value::getName, &fakeName);
    pv::replace(&llvm::StructType::getName, &fakeStructName);
    pv::replace(&ProjectIRDBBase<LLVMProjectIRDB>::getFunction,
                &fakeGetFunction);
    pv::replace(&llvm::Module::getIdentifiedStructTypes, &fakeStructs);
    pv_replace_(reinterpret_cast<void *>(&llvm::demangle),
                reinterpret_cast<void *>(&fakeDemangle));
  }
  // ---- debug information
  template <typename T>
  T *md(unsigned Kind, unsigned Tag,
        std::initializer_list<const llvm::Metadata *> Ops) {
    char *Mem = static_cast<char *>(W.raw(8 * Ops.size() + sizeof(T)));
    auto *N = reinterpret_cast<T *>(Mem + 8 * Ops.size());
    unsigned I = 0;
    for (auto *O : Ops)
      reinterpret_cast<const llvm::Metadata **>(Mem)[I++] = O;
    const_cast<unsigned char &>(N->SubclassID) = Kind;
    N->SubclassData16 = Tag;
    N->NumOperands = Ops.size();
    return N;
  }
  llvm::MDString *str(const char *S) {
    auto *N = static_cast<llvm::MDString *>(W.raw(sizeof(llvm::MDString)));
    const_cast<unsigned char &>(N->SubclassID) = llvm::Metadata::MDStringKind;
    N->Entry = reinterpret_cast<decltype(N->Entry)>(const_cast<char *>(S));
    return N;
  }
  llvm::DIDerivedType *derived(unsigned Tag, const char *Nm, DT Base) {
    return md<llvm::DIDerivedType>(
        llvm::Metadata::DIDerivedTypeKind, Tag,
        {nullptr, nullptr, Nm ? str(Nm) : nullptr, Base, nullptr, nullptr});
  }
  llvm::DICompositeType *composite(unsigned Tag, const char *Nm,
                                   const char *Ident,
                                   std::initializer_list<const llvm::Metadata *> Elems) {
    auto *E = md<llvm::MDTuple>(llvm::Metadata::MDTupleKind, 0, Elems);
    return md<llvm::DICompositeType>(
        llvm::Metadata::DICompositeTypeKind, Tag,
        {nullptr, nullptr, Nm ? str(Nm) : nullptr, nullptr, E, nullptr, nullptr,
         Ident ? str(Ident) : nullptr});
  }
  llvm::Constant *constant(unsigned Id, llvm::Type *Ty,
                           std::initializer_list<Value *> Ops) {
    return reinterpret_cast<llvm::Constant *>(
        W.rawUser<pv::ir::RawValue>(Id, Ty, Ops.begin(), Ops.size()));
  }
  llvm::Constant *cast(Value *V) {
    auto *C = constant(Value::ConstantExprVal, W.ptrTy(I8), {V});
    reinterpret_cast<pv::ir::RawValue *>(C)->SubclassData = Instruction::BitCast;
    return C;
  }
  llvm::GlobalVariable *global(const char *Nm, llvm::Constant *Init) {
    auto *G = W.gvar(W.ptrTy(I8), Init, true);
    if (Nm) {
      name(G, Nm);
      reinterpret_cast<pv::ir::RawValue *>(G)->NumOps |= 1u << 28;
    }
    pv::ir::World::link(reinterpret_cast<void **>(&M->GlobalList),
                        &reinterpret_cast<pv::ir::RawGVar *>(G)->Prev);
    return G;
  }
};

/// Up to three classes; each inherits from arbitrary earlier ones.
struct Classes : Env {
  llvm::DICompositeType *C[3];
  bool Base[3][3] = {}; // Base[I][J]: J is a direct base of I
  bool Sub[3][3] = {};  // Sub[I][J]: J is a subtype of I
  DT Typedef, Enum;
  unsigned Tag0;
  /// Vary: which aspects are arbitrary
  enum { Inherit = 1, Kinds = 2 };
  Classes(unsigned Vary, bool Collide = false) {
    auto Any = [&](unsigned What, const char *N) {
      return (Vary & What) && pv::flip(N);
    };
    DI.Rev = pv::flip("order");
    Tag0 = Any(Kinds, "tag") ? llvm::dwarf::DW_TAG_class_type
                             : llvm::dwarf::DW_TAG_structure_type;
    static const char *const Id[3] = {"_ZTS1A", "_ZTS1B", "_ZTS1C"};
    static const char *const Nm[3] = {"A", "B", "C"};
    Enum = composite(llvm::dwarf::DW_TAG_enumeration_type, "E", nullptr, {});
    auto *Member = derived(llvm::dwarf::DW_TAG_member, "m", Enum);
    for (unsigned I = 0; I < 3; ++I) {
      const llvm::Metadata *E[3] = {Member, Member, Member};
      for (unsigned J = 0; J < I; ++J) {
        if (!Any(Inherit, "inherits"))
          continue;
        Base[I][J] = true;
        DT B = C[J];
        if (I == 1 && Any(Kinds, "through a typedef"))
          B = derived(llvm::dwarf::DW_TAG_typedef, "T",
                      derived(llvm::dwarf::DW_TAG_typedef, "T2", B));
        E[J] = derived(llvm::dwarf::DW_TAG_inheritance, nullptr, B);
      }
      bool NoIdent = I != 2 && !Collide && Any(Kinds, "no identifier");
      C[I] = composite(I == 0 ? Tag0 : I == 1 ? llvm::dwarf::DW_TAG_union_type
                                              : llvm::dwarf::DW_TAG_structure_type,
                       Collide ? "A" : Nm[I], NoIdent ? nullptr : Id[I],
                       {E[0], E[1], E[2]});
      DI.Ty[DI.NumTy++] = C[I];
    }
    Typedef = derived(llvm::dwarf::DW_TAG_typedef, "A", Enum);
    DI.Ty[DI.NumTy++] = const_cast<llvm::DIType *>(Typedef);
    DI.Ty[DI.NumTy++] = const_cast<llvm::DIType *>(Enum);
    for (unsigned I = 0; I < 3; ++I)
      Sub[I][I] = true;
    for (unsigned I = 0; I < 3; ++I)
      for (unsigned J = 0; J < I; ++J)
        for (unsigned K = 0; K <= J; ++K)
          if (Base[I][J] && Sub[K][J])
            Sub[K][I] = true;
  }
  void method(unsigned Cls, unsigned Idx, const char *Link, bool Virt = true) {
    auto *S = md<llvm::DISubprogram>(
        llvm::Metadata::DISubprogramKind, llvm::dwarf::DW_TAG_subprogram,
        {nullptr,
         Cls < 3    ? (const llvm::Metadata *)C[Cls]
         : Cls == 3 ? (const llvm::Metadata *)Enum
                    : (const llvm::Metadata *)Typedef,
         str("m"), str(Link), nullptr, nullptr, nullptr, nullptr});
    S->VirtualIndex = Idx;
    S->SPFlags = Virt ? llvm::DISubprogram::SPFlagVirtual
                      : llvm::DISubprogram::SPFlagZero;
    DI.Sp[DI.NumSp++] = S;
  }
  void check(const DIBasedTypeHierarchy &TH) const {
    pv::ensures(TH.size() == 3 && !TH.empty() && TH.getAllTypes().size() == 3,
                "the types of the hierarchy are the classes, structs and "
                "unions");
    for (unsigned I = 0; I < 3; ++I) {
      pv::ensures(TH.hasType(C[I]), "every class is in the hierarchy");
      auto Subs = TH.getSubTypes(C[I]);
      unsigned N = 0;
      for (unsigned J = 0; J < 3; ++J) {
        N += Sub[I][J];
        pv::ensures(Subs.count(C[J]) == Sub[I][J] &&
                        TH.isSubType(C[I], C[J]) == Sub[I][J],
                    "the subtypes of a class are the class and everything "
                    "that inherits from one of them");
      }
      pv::ensures(Subs.size() == N, "there are no other subtypes");
      pv::ensures(TH.getType(TH.getTypeName(C[I])) == C[I],
                  "a class is found by its name");
    }
    pv::ensures(!TH.hasType(Enum) && !TH.hasType(Typedef) &&
                    TH.getSubTypes(Enum).empty() &&
                    !TH.isSubType(C[0], Enum) && !TH.getType("nothing"),
                "other types are not in the hierarchy");
  }
};
} // namespace

PVC_CONTRACT(di_hierarchy) {
  pv_note_bounded_("three classes");
  Classes E(Classes::Inherit | Classes::Kinds);
  DIBasedTypeHierarchy TH(*E.DB);
  E.check(TH);
  for (const auto &VT : TH.getAllVTables())
    pv::ensures(VT.empty(), "classes without virtual functions have no table");
}
PVC_CONTRACT(di_anonymous) {
  Env E;
  auto *A = E.composite(llvm::dwarf::DW_TAG_structure_type, nullptr, nullptr, {});
  auto *U = E.composite(llvm::dwarf::DW_TAG_union_type, nullptr, nullptr, {});
  auto *B = E.composite(llvm::dwarf::DW_TAG_structure_type, "B", nullptr, {});
  llvm::DIType *Ty[] = {A, B, U};
  for (auto *T : Ty)
    E.DI.Ty[E.DI.NumTy++] = T;
  DIBasedTypeHierarchy TH(*E.DB);
  pv::ensures(TH.size() == 3 && TH.getType("B") == B && TH.hasType(A) &&
                  TH.hasType(U) && TH.isSubType(U, U) && !TH.isSubType(A, U),
              "types without names are in the hierarchy");
}
PVC_CONTRACT(di_vtables) {
  pv_note_bounded_("three methods");
  Classes E(0);
  F_t Want[2][4] = {};
  unsigned Size[2] = {};
  bool Used[2][4] = {};
  for (unsigned I = 0; I < 3; ++I) {
    unsigned Cls = unsigned(pv::choose(2, "class")), Idx = unsigned(pv::choose(4, "index"));
    unsigned K = I == 1 ? unsigned(pv::choose(5, "method")) : 0;
    pv::requires_(!Used[Cls][Idx]);
    bool Ok = K == 0;
    E.method(K >= 3 ? K : Cls, Idx, K == 2 ? "unknown" : FunNames[I], K != 1);
    if (Ok) {
      Used[Cls][Idx] = true;
      Want[Cls][Idx] = Funs[I];
      Size[Cls] = Size[Cls] > Idx ? Size[Cls] : Idx + 1;
    }
  }
  DIBasedTypeHierarchy TH(*E.DB);
  const auto &VT = TH.getAllVTables();
  pv::ensures(VT.size() == 3, "every class has a table");
  for (unsigned I = 0; I < 3; ++I) {
    unsigned At = E.DI.Rev ? 2 - I : I;
    pv::ensures(VT[At].size() == (I == 2 ? 0 : Size[I]),
                "the table ends with the last virtual function");
    for (unsigned J = 0; I < 2 && J < 4; ++J)
      pv::ensures(VT[At].getFunction(J) == Want[I][J],
                  "every virtual function is at its index");
  }
}

// ---- serialization ---------------------------------------------------------
PVC_CONTRACT(di_roundtrip) {
  pv_note_bounded_("three classes, three virtual functions");
  Classes E(Classes::Inherit, pv::flip("equal names"));
  for (unsigned I = 0; I < 2; ++I)
    if (pv::flip("virtual function"))
      E.method(I, unsigned(pv::choose(2, "index")) + I, FunNames[I]);
  DIBasedTypeHierarchy TH(*E.DB);
  DIBasedTypeHierarchyData Data = TH.getTypeHierarchyData();
  // the order in which debug information is visited may be another one
  E.DI.Rev = pv::flip("order when loading");
  DIBasedTypeHierarchy Got(E.DB, Data);
  E.check(Got);
  pv::ensures(Got.VertexTypes == TH.VertexTypes &&
                  Got.Hierarchy == TH.Hierarchy &&
                  Got.TransitiveDerivedIndex == TH.TransitiveDerivedIndex,
              "a hierarchy that is stored and loaded is the same");
  bool Eq = Got.VTables.size() == TH.VTables.size();
  for (unsigned I = 0; I < 3 && Eq; ++I) {
    Eq = Got.VTables[I].size() == TH.VTables[I].size();
    for (unsigned J = 0; J < 3 && Eq; ++J)
      Eq = Got.VTables[I].getFunction(J) == TH.VTables[I].getFunction(J);
  }
  pv::ensures(Eq, "its tables have the same functions at the same slots");
}

namespace {
LLVMTypeHierarchyData *Stored;
void capture(LLVMTypeHierarchyData *D, llvm::raw_ostream &) {
  for (const auto &Ent : D->TypeGraph)
    Stored->TypeGraph.try_emplace(Ent.getKey(), Ent.getValue());
}
/// Structs with type information; each inherits from arbitrary earlier ones.
struct LLVMClasses : Env {
  llvm::StructType *T[3];
  bool Sub[3][3] = {};
  unsigned TI[3]; // 0: type information, 1: declared only, 2: none
  F_t VF[3] = {};
  LLVMClasses(bool Tables = false) {
    static const char *const TN[3] = {"class.A", "struct.B", "class.C"};
    static const char *const IN_[3] = {"_ZTIA", "_ZTIB", "_ZTIC"};
    static const char *const VN[3] = {"_ZTVA", "_ZTVB", "_ZTVC"};
    llvm::GlobalVariable *G[3];
    auto *Vt = global("_ZTVN10__cxxabiv117__class_type_infoE", nullptr);
    auto *Nm = global("_ZTSA", nullptr);
    global(nullptr, nullptr);
    for (unsigned I = 0; I < 3; ++I) {
      T[I] = W.structTy({I32});
      name(T[I], TN[I]);
      Value *Ops[5] = {cast(Vt), cast(Nm)};
      unsigned N = 2;
      TI[I] = I == 1 ? unsigned(pv::choose(3, "type information")) : 0;
      for (unsigned J = 0; J < I; ++J) {
        if (TI[J] == 2 || Tables || !pv::flip("inherits"))
          continue;
        Ops[N++] = cast(G[J]);
        if (TI[I] == 0)
          Sub[J][I] = true;
      }
      G[I] = TI[I] == 2 ? nullptr
                        : global(IN_[I],
                                 TI[I] == 1 ? nullptr
                                            : reinterpret_cast<llvm::Constant *>(
                                                  W.rawUser<pv::ir::RawValue>(
                                                      Value::ConstantStructVal,
                                                      I8, Ops, N)));
      if (unsigned K = Tables ? unsigned(pv::choose(3, "vtable")) : 2) {
        Value *Ent[3] = {W.nullPtr(W.ptrTy(I8)),
                         G[I] ? (Value *)cast(G[I]) : W.nullPtr(W.ptrTy(I8)),
                         cast(const_cast<llvm::Function *>(Funs[I]))};
        if (K == 2)
          VF[I] = Funs[I];
        auto *A = reinterpret_cast<llvm::Constant *>(W.rawUser<pv::ir::RawValue>(
            Value::ConstantArrayVal, W.ptrTy(I8), Ent, 3));
        global(VN[I], K == 2 ? constant(Value::ConstantStructVal, I8, {A})
                             : nullptr);
      }
      Sub[I][I] = true;
    }
    if (Sub[0][1] && Sub[1][2])
      Sub[0][2] = true;
    STs = {T[0], T[1], T[2]};
    if (pv::flip("order"))
      STs = {T[2], T[0], T[1]};
  }
  void check(const LLVMTypeHierarchy &TH) const {
    pv::ensures(TH.size() == 3 && !TH.empty() && TH.getAllTypes().size() == 3,
                "the types of the hierarchy are the named structs");
    auto *Other = llvm::StructType::classof(T[0]) ? (ST) nullptr : T[0];
    pv::ensures(!TH.hasType(Other) && TH.getSubTypes(Other).empty() &&
                    !TH.getType("struct.X"),
                "there are no other types");
    for (unsigned I = 0; I < 3; ++I) {
      pv::ensures(TH.hasType(T[I]) && TH.getType(nameOf(T[I])) == T[I] &&
                      TH.getTypeName(T[I]) == nameOf(T[I]),
                  "a struct is found by its name");
      auto Subs = TH.getSubTypes(T[I]);
      unsigned N = 0;
      for (unsigned J = 0; J < 3; ++J) {
        N += Sub[I][J];
        pv::ensures(Subs.count(T[J]) == Sub[I][J] &&
                        TH.isSubType(T[I], T[J]) == Sub[I][J],
                    "the subtypes of a class are the class and everything "
                    "that inherits from one of them");
      }
      pv::ensures(Subs.size() == N, "there are no other subtypes");
    }
  }
};
} // namespace
PVC_CONTRACT(llvm_hierarchy) {
  pv_note_bounded_("three structs");
  LLVMClasses E;
  LLVMTypeHierarchy TH(*E.DB);
  E.check(TH);
}
PVC_CONTRACT(llvm_roundtrip) {
  pv_note_bounded_("three structs");
  LLVMClasses E;
  LLVMTypeHierarchy TH(*E.DB);
  LLVMTypeHierarchyData Data;
  Stored = &Data;
  pv::replace(&LLVMTypeHierarchyData::printAsJson, &capture);
  // printing does not touch the stream here
  TH.printAsJson(*static_cast<llvm::raw_ostream *>(E.W.raw(64)));
  if (pv::flip("stored types that no longer exist"))
    Data.TypeGraph["class.A"].push_back("class.Removed");
  LLVMTypeHierarchy Got(*E.DB, Data);
  E.check(Got);
}
PVC_CONTRACT(vft_provider) {
  pv_note_bounded_("three structs");
  LLVMClasses E(true);
  LLVMVFTableProvider VTP(*E.M);
  for (unsigned I = 0; I < 3; ++I) {
    pv::ensures(VTP.hasVFTable(E.T[I]) == (E.VF[I] != nullptr),
                "a class has a table if its vtable is defined");
    const auto *VT = VTP.getVFTableOrNull(E.T[I]);
    pv::ensures(VT && VT->getFunction(0) == E.VF[I] &&
                    VT->size() == (E.VF[I] != nullptr),
                "its table is the one of its vtable");
  }
}
