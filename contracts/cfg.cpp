// Contracts: the forward and the backward control-flow view
// (lib/PhasarLLVM/ControlFlow/LLVMBased{,Backward}CFG.cpp)
//
// The forward view is compared with the definition of the successor relation
// on fabricated functions of arbitrary shape, the backward view with the
// forward one.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"

using namespace psr;
using I_t = const llvm::Instruction *;
using F_t = const llvm::Function *;

namespace {
constexpr unsigned MaxI = 9, MaxB = 3;
/// A function with up to MaxB blocks.
struct Fn {
  pv::ir::World W;
  llvm::Function *F = nullptr, *Dbg = nullptr;
  llvm::FunctionType *FTy = nullptr;
  llvm::Type *Void = nullptr;
  llvm::Value *Cond = nullptr;
  unsigned NB = 0, NI = 0;
  llvm::BasicBlock *B[MaxB] = {};
  unsigned First[MaxB + 1] = {}; // indices of the first instructions
  llvm::Instruction *I[MaxI] = {};
  bool IsDbg[MaxI] = {};
  // terminators
  unsigned NT[MaxB] = {}, T[MaxB][3] = {};
  bool Lazy[MaxB] = {}, Leaves[MaxB] = {}, Ret[MaxB] = {};
  llvm::Instruction *Term[MaxB] = {};
  bool Ignore = true;

  explicit Fn(unsigned N, unsigned DbgKind = 0) : NB(N) {
    Void = W.voidTy();
    FTy = W.fnTy(Void, nullptr, 0);
    F = W.func(FTy, 0, true);
    constexpr unsigned Ids[] = {llvm::Intrinsic::dbg_value,
                                llvm::Intrinsic::dbg_declare,
                                llvm::Intrinsic::dbg_label};
    Dbg = W.func(FTy, Ids[DbgKind]);
    Cond = W.arg(W.intTy(1));
    for (unsigned K = 0; K < NB; ++K)
      B[K] = W.block(F);
  }
  void add(unsigned Blk, llvm::Instruction *X, bool D) {
    W.append(B[Blk], X);
    I[NI] = X;
    IsDbg[NI++] = D;
  }
  void plain(unsigned Blk) {
    add(Blk, W.inst(llvm::Instruction::FNeg, Void, {Cond}), false);
  }
  void dbg(unsigned Blk) { add(Blk, W.call(FTy, Dbg, nullptr, 0), true); }
  void linkUses(llvm::Instruction *X) {
    for (unsigned K = 0; K < X->getNumOperands(); ++K) {
      auto &U = reinterpret_cast<pv::ir::RawUse &>(X->getOperandUse(K));
      for (unsigned J = 0; J < NB; ++J)
        if (U.Val == B[J]) {
          auto *R = reinterpret_cast<pv::ir::RawBB *>(B[J]);
          U.Next = R->UseList;
          R->UseList = &U;
        }
    }
  }
  enum Kind { RetK, Unreachable, Resume, Br, CondBr, Invoke, Switch };
  void term(unsigned Blk, Kind K, unsigned A = 0, unsigned B1 = 0,
            unsigned C = 0, bool IsLazy = false) {
    using O = llvm::Instruction;
    llvm::Instruction *X = nullptr;
    unsigned N = 0;
    switch (K) {
    case RetK:
      X = W.inst(O::Ret, Void, {});
      Leaves[Blk] = Ret[Blk] = true;
      break;
    case Unreachable:
      X = W.inst(O::Unreachable, Void, {});
      break;
    case Resume:
      X = W.inst(O::Resume, Void, {Cond});
      Leaves[Blk] = true;
      break;
    case Br:
      X = W.inst(O::Br, Void, {B[A]});
      N = 1;
      break;
    case CondBr:
      X = W.inst(O::Br, Void, {Cond, B[B1], B[A]});
      N = 2;
      break;
    case Switch:
      X = W.inst(O::Switch, Void, {Cond, B[A], Cond, B[B1], Cond, B[C]});
      N = 3;
      break;
    case Invoke:
      X = W.inst(O::Invoke, Void, {B[A], B[B1], Dbg});
      reinterpret_cast<pv::ir::RawCall *>(X)->FTy = FTy;
      N = 2;
      break;
    }
    unsigned Ts[3] = {A, B1, C};
    NT[Blk] = N;
    for (unsigned J = 0; J < N; ++J)
      T[Blk][J] = Ts[J];
    Lazy[Blk] = IsLazy;
    Term[Blk] = X;
    linkUses(X);
    add(Blk, X, false);
    First[Blk + 1] = NI;
  }
  // ---- the specification
  bool ignored(unsigned X) const { return Ignore && IsDbg[X]; }
  unsigned blockOf(unsigned X) const {
    unsigned K = 0;
    while (X >= First[K + 1])
      ++K;
    return K;
  }
  unsigned firstOf(unsigned Blk) const {
    unsigned X = First[Blk];
    while (ignored(X))
      ++X;
    return X;
  }
  unsigned succs(unsigned X, unsigned *Out) const {
    unsigned K = blockOf(X);
    for (unsigned Y = X + 1; Y < First[K + 1]; ++Y)
      if (!ignored(Y)) {
        Out[0] = Y;
        return 1;
      }
    unsigned N = Lazy[K] ? 1 : NT[K];
    for (unsigned J = 0; J < N; ++J)
      Out[J] = firstOf(T[K][J]);
    return N;
  }
  unsigned index(I_t X) const {
    for (unsigned K = 0; K < NI; ++K)
      if (I[K] == X)
        return K;
    return ~0u;
  }
  bool isSucc(unsigned X, unsigned Y) const {
    unsigned S[3];
    unsigned N = succs(X, S);
    for (unsigned J = 0; J < N; ++J)
      if (S[J] == Y)
        return true;
    return false;
  }
};
// which branches guard a lazily initialized static: arbitrary
Fn *Cur = nullptr;
void resetCur() { Cur = nullptr; }
#ifdef PV_NATIVE
pv::OnReset RCur(&resetCur);
#endif
bool lazyStub(const llvm::BranchInst *X) {
  for (unsigned K = 0; K < Cur->NB; ++K)
    if (Cur->Term[K] == X)
      return Cur->Lazy[K];
  return false;
}
void useStubs(Fn &F) {
  Cur = &F;
  pv::replace(&psr::isStaticVariableLazyInitializationBranch, &lazyStub);
}
template <typename V> bool has(const V &L, I_t X) {
  for (I_t Y : L)
    if (Y == X)
      return true;
  return false;
}

void body(Fn &F, unsigned Blk, unsigned Max) {
  for (unsigned K = 0; K < Max; ++K) {
    unsigned A = pv::choose(3, "body");
    if (A == 0)
      return;
    if (A == 1)
      F.plain(Blk);
    else
      F.dbg(Blk);
  }
}
/// Two blocks, bodies of up to two instructions, every terminator.
void two(Fn &F) {
  for (unsigned K = 0; K < 2; ++K) {
    body(F, K, 2);
    unsigned A = pv::choose(8, "terminator");
    F.term(K, A == 7 ? Fn::CondBr : Fn::Kind(A), 1, 1, 1, A == 7);
  }
}
/// Three blocks with all kinds of joins, splits and loops.
void three(Fn &F) {
  if (pv::flip("body"))
    F.dbg(0);
  switch (pv::choose(5, "terminator")) {
  case 0:
    F.term(0, Fn::CondBr, 1, 2);
    break;
  case 1:
    F.term(0, Fn::CondBr, 1, 2, 0, true);
    break;
  case 2:
    F.term(0, Fn::CondBr, 2, 1, 0, true);
    break;
  case 3:
    F.term(0, Fn::Switch, 1, 2, 1);
    break;
  default:
    F.term(0, Fn::Invoke, 1, 2);
  }
  for (unsigned K = 1; K < 3; ++K) {
    body(F, K, 1);
    switch (pv::choose(5, "terminator")) {
    case 0:
      F.term(K, Fn::RetK);
      break;
    case 1:
      F.term(K, Fn::Br, K);
      break;
    case 2:
      F.term(K, Fn::Br, 3 - K);
      break;
    case 3:
      F.term(K, Fn::CondBr, K, 3 - K);
      break;
    default:
      F.term(K, Fn::CondBr, K, 3 - K, 0, true);
    }
  }
}

void checkForward(Fn &F) {
  LLVMBasedCFG Cfg(F.Ignore);
  for (unsigned X = 0; X < F.NI; ++X) {
    unsigned Exp[3];
    unsigned N = F.succs(X, Exp);
    auto Got = Cfg.getSuccsOf(F.I[X]);
    if (Got.size() != N) {
      pv::ensures(false, "the successors of a statement");
      return;
    }
    for (unsigned J = 0; J < N; ++J)
      pv::ensures(Got[J] == F.I[Exp[J]], "the successors of a statement");
    auto Preds = Cfg.getPredsOf(F.I[X]);
    for (I_t P : Preds) {
      unsigned Y = F.index(P);
      pv::ensures(Y != ~0u && !F.ignored(Y),
                  "predecessors are statements that are not ignored");
    }
    if (!F.ignored(X))
      for (unsigned Y = 0; Y < F.NI; ++Y)
        if (!F.ignored(Y))
          pv::ensures(has(Preds, F.I[Y]) == F.isSucc(Y, X),
                      "a precedes b iff b succeeds a");
    pv::ensures(Cfg.getFunctionOf(F.I[X]) == F.F, "the function of a statement");
  }
}
void checkMirror(Fn &F, bool Virtual) {
  LLVMBasedCFG Fw(F.Ignore);
  LLVMBasedBackwardCFG Bw(F.Ignore);
  I_t VRet = nullptr;
  if (Virtual) {
    VRet = F.W.inst(llvm::Instruction::Ret, F.Void, {});
    Bw.BackwardRets[F.F] = VRet;
    Bw.BackwardRetToFunction[VRet] = F.F;
    pv::ensures(Bw.getSuccsOf(VRet).empty(), "nothing follows the virtual "
                                             "return");
    pv::ensures(Bw.getFunctionOf(VRet) == F.F,
                "the function of the virtual return");
    pv::ensures(Bw.getPredsOf(VRet) == Fw.getStartPointsOf(F.F),
                "the virtual return follows the start points of the forward "
                "view");
    pv::ensures(Bw.isExitInst(VRet), "the virtual return is the exit");
  }
  for (unsigned X = 0; X < F.NI; ++X) {
    I_t S = F.I[X];
    auto FwP = Fw.getPredsOf(S);
    auto BwS = Bw.getSuccsOf(S);
    if (Virtual && FwP.empty())
      FwP.push_back(VRet);
    pv::ensures(BwS == FwP,
                "backward successors are the forward predecessors");
    pv::ensures(Bw.getPredsOf(S) == Fw.getSuccsOf(S),
                "backward predecessors are the forward successors");
    pv::ensures(Bw.getFunctionOf(S) == F.F, "the function of a statement");
    pv::ensures(Bw.isStartPoint(S) == Fw.isExitInst(S),
                "backward start points are the forward exit statements");
    if (!Virtual)
      pv::ensures(Bw.isExitInst(S) == Fw.isStartPoint(S),
                  "backward exit statements are the forward start points");
    else
      pv::ensures(!Bw.isExitInst(S), "the virtual return is the exit");
  }
}
void checkEdges(Fn &F, bool Virtual) {
  LLVMBasedCFG Fw(F.Ignore);
  LLVMBasedBackwardCFG Bw(F.Ignore);
  if (Virtual) {
    I_t VRet = F.W.inst(llvm::Instruction::Ret, F.Void, {});
    Bw.BackwardRets[F.F] = VRet;
    Bw.BackwardRetToFunction[VRet] = F.F;
  }
  auto check = [&F](const auto &Cfg, const char *What) {
    auto Edges = Cfg.getAllControlFlowEdges(F.F);
    size_t K = 0;
    for (unsigned X = 0; X < F.NI; ++X) {
      if (F.ignored(X))
        continue;
      for (I_t S : Cfg.getSuccsOf(F.I[X])) {
        pv::ensures(K < Edges.size() && Edges[K].first == F.I[X] &&
                        Edges[K].second == S,
                    What);
        ++K;
      }
    }
    pv::ensures(K == Edges.size(), What);
  };
  check(Fw, "the edges of the forward view are its successor relation");
  check(Bw, "the edges of the backward view are its successor relation");
}
} // namespace

#define BOUNDS2                                                                \
  pv_note_bounded_("two blocks, bodies of at most two instructions")
#define BOUNDS3                                                                \
  pv_note_bounded_("three blocks, bodies of at most one instruction")

PVC_CONTRACT(forward_two) {
  BOUNDS2;
  Fn F(2);
  two(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkForward(F);
}
PVC_CONTRACT(forward_three) {
  BOUNDS3;
  Fn F(3);
  three(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkForward(F);
}
PVC_CONTRACT(mirror_two) {
  BOUNDS2;
  Fn F(2);
  two(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkMirror(F, pv::flip("virtual return"));
}
PVC_CONTRACT(mirror_three) {
  BOUNDS3;
  Fn F(3);
  three(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkMirror(F, true);
}
PVC_CONTRACT(edges_two) {
  BOUNDS2;
  Fn F(2);
  two(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkEdges(F, pv::flip("virtual return"));
}
PVC_CONTRACT(edges_three) {
  BOUNDS3;
  Fn F(3);
  three(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkEdges(F, true);
}
/// Start and exit points of either view.
PVC_CONTRACT(start_and_exit) {
  BOUNDS2;
  Fn F(2);
  two(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  LLVMBasedCFG Fw(F.Ignore);
  LLVMBasedBackwardCFG Bw(F.Ignore);
  auto Start = Fw.getStartPointsOf(F.F);
  pv::ensures(Start.size() == 1 && Start[0] == F.I[F.firstOf(0)],
              "a function starts at its first statement");
  auto Exit = Fw.getExitPointsOf(F.F);
  size_t K = 0;
  for (unsigned B = 0; B < F.NB; ++B)
    if (F.Leaves[B]) {
      pv::ensures(K < Exit.size() && Exit[K] == F.Term[B],
                  "a function exits where control leaves it");
      ++K;
    }
  pv::ensures(K == Exit.size(), "a function exits where control leaves it");
  pv::ensures(Bw.getStartPointsOf(F.F) == Exit,
              "backward start points are the forward exit points");
  pv::ensures(Bw.getExitPointsOf(F.F) == Start,
              "backward exit points are the forward start points");
  for (unsigned X = 0; X < F.NI; ++X) {
    if (!F.ignored(X))
      pv::ensures(Fw.isStartPoint(F.I[X]) == has(Start, F.I[X]),
                  "isStartPoint agrees with getStartPointsOf");
    unsigned B = F.blockOf(X);
    pv::ensures(Fw.isExitInst(F.I[X]) == (F.Ret[B] && F.I[X] == F.Term[B]),
                "a return is an exit statement");
  }
  I_t VRet = F.W.inst(llvm::Instruction::Ret, F.Void, {});
  Bw.BackwardRets[F.F] = VRet;
  Bw.BackwardRetToFunction[VRet] = F.F;
  auto VExit = Bw.getExitPointsOf(F.F);
  pv::ensures(VExit.size() == 1 && VExit[0] == VRet,
              "the virtual return is the exit");
}
/// Nothing is known about functions without body, no function, or a function
/// the view was not set up for.
PVC_CONTRACT(no_body) {
  Fn F(1);
  F.term(0, Fn::RetK);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  LLVMBasedCFG Fw(F.Ignore);
  LLVMBasedBackwardCFG Bw(F.Ignore);
  F_t Decl = F.Dbg, None = nullptr;
  for (F_t X : {Decl, None}) {
    pv::ensures(Fw.getStartPointsOf(X).empty() && Fw.getExitPointsOf(X).empty(),
                "nothing starts or ends without a body");
    pv::ensures(Bw.getStartPointsOf(X).empty() && Bw.getExitPointsOf(X).empty(),
                "nothing starts or ends without a body");
  }
  I_t VRet = F.W.inst(llvm::Instruction::Ret, F.Void, {});
  Bw.BackwardRets[F.F] = VRet;
  Bw.BackwardRetToFunction[VRet] = F.F;
  pv::ensures(Bw.getExitPointsOf(None).empty() &&
                  Bw.getStartPointsOf(None).empty(),
              "nothing starts or ends without a body");
}
/// Branch-target queries agree with the successor relation.
PVC_CONTRACT(branch_targets) {
  BOUNDS3;
  Fn F(3);
  three(F);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  LLVMBasedCFG Fw(F.Ignore);
  LLVMBasedBackwardCFG Bw(F.Ignore);
  for (unsigned X = 0; X < F.NI; ++X)
    for (unsigned Y = 0; Y < F.NI; ++Y) {
      if (F.ignored(X) || F.ignored(Y))
        continue;
      unsigned B = F.blockOf(X);
      bool Exp = false, Fall = false;
      if (F.I[X] == F.Term[B]) {
        for (unsigned J = 0; J < F.NT[B]; ++J)
          Exp |= F.firstOf(F.T[B][J]) == Y;
        if (llvm::isa<llvm::BranchInst>(F.I[X]))
          Fall = F.firstOf(F.T[B][F.NT[B] - 1]) == Y;
      }
      pv::ensures(Fw.isBranchTarget(F.I[X], F.I[Y]) == Exp,
                  "a branch target is where control continues after a branch");
      pv::ensures(Bw.isBranchTarget(F.I[Y], F.I[X]) == Exp,
                  "backward branch targets mirror the forward ones");
      pv::ensures(Fw.isFallThroughSuccessor(F.I[X], F.I[Y]) == Fall,
                  "the fall-through successor of a branch");
    }
}

/// Every kind of debug instruction, and other intrinsics.
PVC_CONTRACT(debug_kinds) {
  pv_note_bounded_("one block, three instructions");
  unsigned Kind = pv::choose(4, "kind of debug instruction");
  Fn F(1, Kind == 3 ? 0 : Kind);
  auto *Other = F.W.func(F.FTy, llvm::Intrinsic::lifetime_start);
  for (unsigned K = 0; K < 3; ++K)
    switch (pv::choose(Kind == 3 ? 2 : 3, "body")) {
    case 0:
      F.plain(0);
      break;
    case 1:
      F.add(0, F.W.call(F.FTy, Other, nullptr, 0), false);
      break;
    default:
      F.dbg(0);
    }
  F.term(0, Fn::RetK);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  checkForward(F);
  checkMirror(F, true);
  checkEdges(F, true);
}

// ---- the interprocedural views
#ifndef PV_NATIVE
bool LLVMProjectIRDB::isValidImpl() const noexcept { return Mod != nullptr; }
template class psr::ProjectIRDBBase<LLVMProjectIRDB>;
#endif
namespace {
/// Raw memory for an LLVMBasedICFG over a module with the given functions.
struct Program {
  alignas(16) char ModBuf[sizeof(llvm::Module)] = {};
  alignas(16) char DBBuf[sizeof(LLVMProjectIRDB)] = {};
  alignas(16) char FwBuf[sizeof(LLVMBasedICFG)] = {};
  alignas(16) char BwBuf[sizeof(LLVMBasedBackwardICFG)] = {};
  llvm::Module *M = reinterpret_cast<llvm::Module *>(ModBuf);
  LLVMProjectIRDB *DB = reinterpret_cast<LLVMProjectIRDB *>(DBBuf);
  LLVMBasedICFG *Fw = reinterpret_cast<LLVMBasedICFG *>(FwBuf);
  LLVMBasedBackwardICFG *Bw = reinterpret_cast<LLVMBasedBackwardICFG *>(BwBuf);
  using M_t = llvm::DenseMap<F_t, I_t>;
  using R_t = llvm::DenseMap<I_t, F_t>;
  using V_t = llvm::SmallVector<const llvm::Value *, 0>;

  Program(Fn &F, llvm::Value *Global) {
    auto *FL = &M->FunctionList;
    new (FL) llvm::Module::FunctionListType();
    void **Head = reinterpret_cast<void **>(FL);
    pv::ir::World::link(
        Head, &reinterpret_cast<pv::ir::RawFunc *>(F.Dbg)->Prev);
    pv::ir::World::link(Head,
                        &reinterpret_cast<pv::ir::RawFunc *>(F.F)->Prev);
    new (&DB->Mod) MaybeUniquePtr<llvm::Module>(M);
    new (&DB->IdToInst) V_t();
    DB->IdOffset = 1;
    DB->IdToInst.push_back(Global);
    for (unsigned X = 0; X < F.NI; ++X)
      DB->IdToInst.push_back(F.I[X]);
    Fw->IRDB = DB;
    Fw->IgnoreDbgInstructions = Bw->IgnoreDbgInstructions = F.Ignore;
    auto *C = static_cast<LLVMBasedBackwardCFG *>(Bw);
    new (&C->BackwardRets) M_t();
    new (&C->BackwardRetToFunction) R_t();
    I_t VRet = F.W.inst(llvm::Instruction::Ret, F.Void, {});
    C->BackwardRets[F.F] = VRet;
    C->BackwardRetToFunction[VRet] = F.F;
    Bw->ForwardICFG = Fw;
  }
  ~Program() {
    auto *C = static_cast<LLVMBasedBackwardCFG *>(Bw);
    C->BackwardRets.~M_t();
    C->BackwardRetToFunction.~R_t();
    DB->IdToInst.~V_t();
  }
};
template <typename Cfg>
void checkNonCallStart(const Fn &F, const Cfg &C, const std::vector<I_t> &Got) {
  unsigned N = 0;
  for (unsigned X = 0; X < F.NI; ++X) {
    unsigned Cnt = 0;
    for (I_t Y : Got)
      Cnt += Y == F.I[X];
    bool Exp = !llvm::isa<llvm::CallBase>(F.I[X]) && !C.isStartPoint(F.I[X]);
    N += Exp;
    pv::ensures(Cnt == Exp, "every statement but calls and the start points "
                            "of the view");
  }
  pv::ensures(Got.size() == N, "every statement but calls and the start "
                               "points of the view");
}
} // namespace
/// The statements whose values the solvers compute from the jump functions.
PVC_CONTRACT(non_call_start_nodes) {
  BOUNDS2;
  Fn F(2);
  for (unsigned K = 0; K < 2; ++K) {
    body(F, K, 2);
    unsigned A = pv::choose(5, "terminator");
    F.term(K, A == 4 ? Fn::Invoke : Fn::Kind(A), 1, 1, 1);
  }
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  Program P(F, F.Cond);
  checkNonCallStart(F, LLVMBasedCFG(F.Ignore), P.Fw->allNonCallStartNodes());
  checkNonCallStart(F, LLVMBasedBackwardCFG(F.Ignore),
                    P.Bw->allNonCallStartNodes());
}
/// Both interprocedural views use their own successors as return sites.
PVC_CONTRACT(return_sites) {
  BOUNDS2;
  Fn F(2);
  F.dbg(0); // (stands for any call)
  F.plain(0);
  F.term(0, Fn::Invoke, 1, 1);
  body(F, 1, 1);
  F.term(1, Fn::RetK);
  F.Ignore = pv::flip("ignore debug instructions");
  useStubs(F);
  Program P(F, F.Cond);
  LLVMBasedCFG Fw(F.Ignore);
  for (unsigned X = 0; X < F.NI; ++X) {
    pv::ensures(P.Fw->getReturnSitesOfCallAt(F.I[X]) == Fw.getSuccsOf(F.I[X]),
                "return sites follow the call");
    auto Exp = Fw.getPredsOf(F.I[X]);
    if (Exp.empty())
      Exp = P.Bw->LLVMBasedBackwardCFG::getExitPointsOf(F.F);
    pv::ensures(P.Bw->getReturnSitesOfCallAt(F.I[X]) == Exp,
                "backward return sites precede the call");
  }
}
