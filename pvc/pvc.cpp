// PVC -- a deductive verifier for contracts written in C++ over the real
// phasar code.
//
// Input: LLVM-14 bitcode of a contract translation unit (which includes the
// real headers/sources of /repo).  Every function named pvc_<name> is a
// contract: it builds an arbitrary pre-state (pv_any / pv_assume), runs the
// real code, and states postconditions (pv_assert).  PVC generates
// verification conditions by path-wise forward symbolic execution (strongest
// postcondition) and discharges each with Z3.  All inputs are covered: symbolic
// values range over their full machine type, unknown functions are
// uninterpreted, loops are either fully unrolled (exit proved) or cut by an
// invariant (pv_loop_* intrinsics issued by contract iterators).
//
// Callee contracts: pv_replace(f, g) makes every later call of f execute the
// contract g instead of f's body (modular verification).
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar.h"
#include "llvm/Transforms/Utils.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

using namespace llvm;
using std::map;
using std::set;
using std::string;
using std::vector;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

// ---------------------------------------------------------------- values
static Z3_context C;
struct Val {
  uint32_t w = 0;  // width in bits; 0 == void
  uint8_t k = 0;   // 0 concrete, 1 symbolic, 2 aggregate
  union {
    uint64_t c;
    Z3_ast e;
    vector<Val> *a;
  };
  Val() : c(0) {}
};
static inline uint64_t maskw(uint64_t v, unsigned w) {
  return w >= 64 ? v : (v & ((1ULL << w) - 1));
}
static inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64)
    return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}
static Val mkc(uint64_t v, unsigned w) {
  Val r;
  r.w = w;
  r.k = 0;
  r.c = maskw(v, w);
  return r;
}
static Z3_sort bvsort(unsigned w) {
  static map<unsigned, Z3_sort> M;
  auto &S = M[w];
  if (!S)
    S = Z3_mk_bv_sort(C, w);
  return S;
}
static Val mksraw(Z3_ast e, unsigned w) {
  Val r;
  r.w = w;
  r.k = 1;
  r.e = e;
  return r;
}
static bool isNum(Z3_ast a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }
static Val fromAst(Z3_ast e, unsigned w, bool simp = true) {
  if (simp)
    e = Z3_simplify(C, e);
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(C, e);
    if (b == Z3_L_TRUE)
      return mkc(1, 1);
    if (b == Z3_L_FALSE)
      return mkc(0, 1);
    return mksraw(e, 1);
  }
  if (w <= 64 && isNum(e)) {
    uint64_t u;
    if (Z3_get_numeral_uint64(C, e, &u))
      return mkc(u, w);
  }
  return mksraw(e, w);
}
static Z3_ast bvnum(uint64_t v, unsigned w) {
  return Z3_mk_unsigned_int64(C, v, bvsort(w));
}
// BV ast (w==1: bool)
static Z3_ast toAst(const Val &v) {
  if (v.k == 1)
    return v.e;
  assert(v.k == 0);
  if (v.w == 1)
    return v.c ? Z3_mk_true(C) : Z3_mk_false(C);
  return bvnum(v.c, v.w);
}
static Z3_ast toBV(const Val &v) { // also w==1 as bv1
  if (v.w == 1) {
    if (v.k == 0)
      return bvnum(v.c, 1);
    return Z3_mk_ite(C, v.e, bvnum(1, 1), bvnum(0, 1));
  }
  return toAst(v);
}
static Val fromBV(Z3_ast e, unsigned w) {
  if (w == 1)
    return fromAst(Z3_mk_eq(C, e, bvnum(1, 1)), 1);
  return fromAst(e, w);
}
static Val mkAgg(vector<Val> v, unsigned w = 0) {
  Val r;
  r.k = 2;
  r.w = w;
  r.a = new vector<Val>(std::move(v));
  return r;
}
static Z3_ast mkNot(Z3_ast e) { return Z3_mk_not(C, e); }
static unsigned FreshCtr = 0;
static Z3_ast freshAst(const string &N, unsigned w) {
  string nm = N + "!" + std::to_string(FreshCtr++);
  return Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()),
                     w == 1 ? Z3_mk_bool_sort(C) : bvsort(w));
}

// ---------------------------------------------------------------- memory
struct SymB {
  Z3_ast t;
  uint16_t idx, n;
};
struct Obj {
  uint64_t base = 0, size = 0;
  uint8_t kind = 0; // 0 global 1 heap 2 stack
  bool ro = false;
  vector<uint8_t> b, k; // k: 0 conc, 1 sym, 2 undef
  map<uint32_t, SymB> s;
  string name;
};
using ObjP = std::shared_ptr<Obj>;

struct Frame {
  Function *F = nullptr;
  BasicBlock *BB = nullptr, *Prev = nullptr;
  BasicBlock::iterator It;
  vector<Val> R;
  vector<uint64_t> Allocas;
  CallBase *CS = nullptr; // call site in the caller
  int Hook = 0;           // 1 = contract-end marker
};
struct InRec {
  string name;
  unsigned w;
  Z3_ast e;
};
struct UFRec {
  string name;
  vector<Z3_ast> args;
  Z3_ast res;
};
// loop cut record
struct Cut {
  uint64_t id;
  size_t frameDepth;
  uint64_t heapMark, stackMark;
  // allowed (havoced) ranges
  vector<std::pair<uint64_t, uint64_t>> allowed;
  bool bad = false;
};
struct State {
  vector<Frame> St;
  map<uint64_t, ObjP> Mem;
  vector<Z3_ast> PC;
  uint64_t HeapP = 0x200000000000ULL, StackP = 0x7f0000000000ULL;
  map<Function *, Function *> Repl;
  vector<InRec> Ins;
  vector<UFRec> UFs;
  vector<string> Trace; // choice trace
  uint64_t NInst = 0;
  uint64_t LiveHeap = 0;
  map<uint64_t, uint64_t> Freed; // base->size of freed heap objects
  vector<Cut> Cuts;
  bool Dead = false;
  vector<string> Labels;
  vector<uint32_t> BrTrace;
};
using StateP = std::unique_ptr<State>;

struct Abort { // abandon path: undecided
  string why;
};

// ---------------------------------------------------------------- globals
static LLVMContext Ctx;
static std::unique_ptr<Module> Mod;
static const DataLayout *DL;
static DenseMap<const GlobalValue *, uint64_t> GAddr;
static map<uint64_t, GlobalVariable *> AddrG;
static map<uint64_t, Function *> AddrF;
static DenseMap<const Function *, DenseMap<const Value *, unsigned>> RegNo;
static DenseMap<const Constant *, Val> CCache;
static map<GlobalVariable *, ObjP> ConstG;

// stats
struct Site {
  string label, loc;
  uint64_t vcs = 0, simp = 0, z3 = 0, failed = 0, unknown = 0;
};
static map<string, Site> Sites;
struct Viol {
  string label, loc, stack;
  vector<string> trace;
  json::Value inputs = nullptr, ufs = nullptr;
  string smt;
};
static vector<Viol> Viols;
static set<string> Undecided;
static map<string, uint64_t> Covers;
static set<string> CoverWanted;
static set<const Function *> Executed;
static set<string> Replaced;
static set<string> Assumed;
static set<string> Bounded;
static set<string> LoopInvs;
static uint64_t NPaths = 0, NDone = 0, NKilled = 0, NForks = 0, NQueries = 0;
static double SolverT = 0;
static uint64_t TotInst = 0;
static double Deadline = 0;
static uint64_t MaxPaths = 2000000, MaxInst = 60000000;
static unsigned QTimeoutMs = 20000;
static bool OptTrace = false;
static string CurContract;
static string DumpDir;

// ---------------------------------------------------------------- solver
static Z3_solver Slv;
static vector<Z3_ast> Pushed;
static void syncSolver(const vector<Z3_ast> &PC) {
  size_t i = 0;
  while (i < PC.size() && i < Pushed.size() && PC[i] == Pushed[i])
    ++i;
  if (Pushed.size() > i) {
    Z3_solver_pop(C, Slv, Pushed.size() - i);
    Pushed.resize(i);
  }
  for (; i < PC.size(); ++i) {
    Z3_solver_push(C, Slv);
    Z3_solver_assert(C, Slv, PC[i]);
    Pushed.push_back(PC[i]);
  }
}
enum Res { UNSAT, SAT, UNKNOWN };
static Z3_model LastModel = nullptr;
static uint64_t NOneShot = 0, NExternal = 0;
static unsigned DumpN = 0;
static Res runExternal(const string &smt) {
  // second opinion by newer solvers
  char fn[] = "/tmp/pvcqXXXXXX";
  int fd = mkstemp(fn);
  if (fd < 0)
    return UNKNOWN;
  FILE *f = fdopen(fd, "w");
  fputs(smt.c_str(), f);
  fclose(f);
  Res r = UNKNOWN;
  for (const char *cmd : {"z3-new -T:30 ", "cvc5 --tlimit=30000 "}) {
    FILE *p = popen((string(cmd) + fn + " 2>/dev/null").c_str(), "r");
    char buf[256] = {0};
    if (p) {
      if (!fgets(buf, sizeof buf, p))
        buf[0] = 0;
      pclose(p);
    }
    if (!strncmp(buf, "unsat", 5)) {
      r = UNSAT;
      break;
    }
    if (!strncmp(buf, "sat", 3)) {
      r = SAT;
      break;
    }
  }
  unlink(fn);
  return r;
}
static Res checkSat(const vector<Z3_ast> &PC, Z3_ast extra,
                    bool wantModel = false) {
  double t0 = now();
  ++NQueries;
  syncSolver(PC);
  Z3_lbool r;
  bool pushed = false;
  if (extra) {
    Z3_solver_push(C, Slv);
    Z3_solver_assert(C, Slv, extra);
    pushed = true;
  }
  r = Z3_solver_check(C, Slv);
  LastModel = nullptr;
  if (r == Z3_L_TRUE && wantModel) {
    LastModel = Z3_solver_get_model(C, Slv);
    if (LastModel)
      Z3_model_inc_ref(C, LastModel);
  }
  if (pushed)
    Z3_solver_pop(C, Slv, 1);
  if (r == Z3_L_UNDEF) {
    // one-shot solver with full bit-blasting tactic
    ++NOneShot;
    Z3_solver S2 =
        Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV"));
    Z3_solver_inc_ref(C, S2);
    Z3_params P = Z3_mk_params(C);
    Z3_params_inc_ref(C, P);
    Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), QTimeoutMs);
    Z3_solver_set_params(C, S2, P);
    for (auto *A : PC)
      Z3_solver_assert(C, S2, A);
    if (extra)
      Z3_solver_assert(C, S2, extra);
    r = Z3_solver_check(C, S2);
    if (r == Z3_L_TRUE && wantModel) {
      LastModel = Z3_solver_get_model(C, S2);
      if (LastModel)
        Z3_model_inc_ref(C, LastModel);
    }
    if (r == Z3_L_UNDEF) {
      ++NExternal;
      string smt = string("(set-logic QF_UFBV)\n") +
                   Z3_solver_to_string(C, S2) + "\n(check-sat)\n";
      Res e = runExternal(smt);
      if (e == UNSAT)
        r = Z3_L_FALSE;
      else if (e == SAT && !wantModel)
        r = Z3_L_TRUE;
    }
    Z3_solver_dec_ref(C, S2);
  }
  SolverT += now() - t0;
  return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
}
static uint64_t evalU64(Z3_model M, Z3_ast e) {
  Z3_ast r;
  if (!Z3_model_eval(C, M, e, true, &r))
    return 0;
  if (Z3_get_sort_kind(C, Z3_get_sort(C, r)) == Z3_BOOL_SORT)
    return Z3_get_bool_value(C, r) == Z3_L_TRUE;
  uint64_t u = 0;
  Z3_get_numeral_uint64(C, r, &u);
  return u;
}

// ---------------------------------------------------------------- locations
static string locOf(const Instruction *I) {
  if (auto &D = I->getDebugLoc()) {
    const DILocation *L = D.get();
    while (L->getInlinedAt())
      L = L->getInlinedAt();
    string f = D->getFilename().str();
    return f + ":" + std::to_string(D->getLine());
  }
  return I->getFunction()->getName().str();
}
// location of the current point, skipping the contract language's own header
static string locHere(const State &S) {
  string l = locOf(&*S.St.back().It);
  for (size_t i = S.St.size(); i-- > 1 && l.find("include/pv/") != string::npos;)
    l = locOf(S.St[i].CS);
  return l;
}
static string stackOf(const State &S) {
  string r;
  for (size_t i = S.St.size(); i-- > 0;) {
    auto &F = S.St[i];
    const Instruction *I = nullptr;
    if (i + 1 < S.St.size())
      I = S.St[i + 1].CS;
    else if (F.It != F.BB->end())
      I = &*F.It;
    r += demangle(F.F->getName().str()).substr(0, 160);
    if (I)
      r += " @" + locOf(I);
    r += "\n";
    if (r.size() > 4000)
      break;
  }
  return r;
}

// ---------------------------------------------------------------- consts
static Val evalConst(const Constant *K);
static uint64_t addrOfGlobal(const GlobalValue *G) {
  if (auto *GA = dyn_cast<GlobalAlias>(G))
    return evalConst(GA->getAliasee()).c;
  auto It = GAddr.find(G);
  if (It == GAddr.end())
    throw Abort{"global without address"};
  return It->second;
}
static unsigned widthOf(Type *T) {
  if (T->isVoidTy())
    return 0;
  if (T->isPointerTy())
    return 64;
  if (T->isIntegerTy())
    return T->getIntegerBitWidth();
  if (T->isFloatTy())
    return 32;
  if (T->isDoubleTy())
    return 64;
  if (T->isX86_FP80Ty())
    return 80;
  return (unsigned)DL->getTypeSizeInBits(T).getFixedSize();
}
static Val undefOf(Type *T) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    vector<Val> v;
    unsigned n = T->isStructTy()  ? T->getStructNumElements()
                 : T->isArrayTy() ? T->getArrayNumElements()
                                  : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i)
      v.push_back(undefOf(T->isStructTy()  ? T->getStructElementType(i)
                          : T->isArrayTy() ? T->getArrayElementType()
                                           : T->getScalarType()));
    return mkAgg(v);
  }
  unsigned w = widthOf(T);
  return mksraw(freshAst("undef", w), w);
}
static Val zeroOf(Type *T) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    vector<Val> v;
    unsigned n = T->isStructTy()  ? T->getStructNumElements()
                 : T->isArrayTy() ? T->getArrayNumElements()
                                  : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; ++i)
      v.push_back(zeroOf(T->isStructTy()  ? T->getStructElementType(i)
                         : T->isArrayTy() ? T->getArrayElementType()
                                          : T->getScalarType()));
    return mkAgg(v);
  }
  unsigned w = widthOf(T);
  if (w <= 64)
    return mkc(0, w);
  return mksraw(bvnum(0, w), w);
}
static Val doBin(unsigned op, const Val &a, const Val &b);
static Val doCast(unsigned op, const Val &a, unsigned w);
static Val doICmp(CmpInst::Predicate P, const Val &a, const Val &b);
static Val wideConst(const APInt &A) {
  unsigned w = A.getBitWidth();
  if (w <= 64)
    return mkc(A.getZExtValue(), w);
  SmallString<64> s;
  A.toString(s, 10, false);
  return mksraw(Z3_mk_numeral(C, s.c_str(), bvsort(w)), w);
}
static Val evalConst(const Constant *K) {
  auto It = CCache.find(K);
  if (It != CCache.end())
    return It->second;
  Val r;
  bool cache = true;
  if (auto *CI = dyn_cast<ConstantInt>(K))
    r = wideConst(CI->getValue());
  else if (auto *CF = dyn_cast<ConstantFP>(K))
    r = wideConst(CF->getValueAPF().bitcastToAPInt());
  else if (isa<ConstantPointerNull>(K))
    r = mkc(0, 64);
  else if (isa<UndefValue>(K)) {
    return undefOf(K->getType());
  } else if (isa<ConstantAggregateZero>(K))
    r = zeroOf(K->getType());
  else if (auto *G = dyn_cast<GlobalValue>(K))
    r = mkc(addrOfGlobal(G), 64);
  else if (auto *CD = dyn_cast<ConstantDataSequential>(K)) {
    vector<Val> v;
    for (unsigned i = 0; i < CD->getNumElements(); ++i)
      v.push_back(evalConst(CD->getElementAsConstant(i)));
    r = mkAgg(v);
  } else if (auto *CA = dyn_cast<ConstantAggregate>(K)) {
    vector<Val> v;
    for (unsigned i = 0; i < CA->getNumOperands(); ++i)
      v.push_back(evalConst(cast<Constant>(CA->getOperand(i))));
    r = mkAgg(v);
  } else if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    unsigned op = CE->getOpcode();
    if (CE->isCast())
      r = doCast(op, evalConst(CE->getOperand(0)), widthOf(CE->getType()));
    else if (op == Instruction::GetElementPtr) {
      auto *G = cast<GEPOperator>(CE);
      APInt Off(64, 0);
      if (!G->accumulateConstantOffset(*DL, Off))
        throw Abort{"constexpr gep"};
      Val b = evalConst(CE->getOperand(0));
      r = mkc(b.c + Off.getZExtValue(), 64);
    } else if (op == Instruction::ICmp)
      r = doICmp((CmpInst::Predicate)CE->getPredicate(),
                 evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)));
    else if (op == Instruction::Select) {
      Val c = evalConst(CE->getOperand(0));
      r = evalConst(CE->getOperand(c.c ? 1 : 2));
    } else if (Instruction::isBinaryOp(op))
      r = doBin(op, evalConst(CE->getOperand(0)), evalConst(CE->getOperand(1)));
    else
      throw Abort{string("constexpr ") + CE->getOpcodeName()};
  } else
    throw Abort{"constant kind"};
  if (cache)
    CCache[K] = r;
  return r;
}

// ---------------------------------------------------------------- ops
static Val fpBin(unsigned op, const Val &a, const Val &b) {
  if (a.k || b.k)
    throw Abort{"symbolic floating point"};
  if (a.w == 32) {
    float x, y, z = 0;
    uint32_t t = a.c;
    memcpy(&x, &t, 4);
    t = b.c;
    memcpy(&y, &t, 4);
    z = op == Instruction::FAdd   ? x + y
        : op == Instruction::FSub ? x - y
        : op == Instruction::FMul ? x * y
        : op == Instruction::FDiv ? x / y
                                  : fmodf(x, y);
    memcpy(&t, &z, 4);
    return mkc(t, 32);
  }
  double x, y, z;
  memcpy(&x, &a.c, 8);
  memcpy(&y, &b.c, 8);
  z = op == Instruction::FAdd   ? x + y
      : op == Instruction::FSub ? x - y
      : op == Instruction::FMul ? x * y
      : op == Instruction::FDiv ? x / y
                                : fmod(x, y);
  uint64_t t;
  memcpy(&t, &z, 8);
  return mkc(t, 64);
}
static Val doBin(unsigned op, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (op == Instruction::FAdd || op == Instruction::FSub ||
      op == Instruction::FMul || op == Instruction::FDiv ||
      op == Instruction::FRem)
    return fpBin(op, a, b);
  if (a.k == 2) {
    vector<Val> v;
    for (size_t i = 0; i < a.a->size(); ++i)
      v.push_back(doBin(op, (*a.a)[i], (*b.a)[i]));
    return mkAgg(v);
  }
  if (a.k == 0 && b.k == 0) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add:
      return mkc(x + y, w);
    case Instruction::Sub:
      return mkc(x - y, w);
    case Instruction::Mul:
      return mkc(x * y, w);
    case Instruction::UDiv:
      if (y)
        return mkc(x / y, w);
      break;
    case Instruction::URem:
      if (y)
        return mkc(x % y, w);
      break;
    case Instruction::SDiv: {
      int64_t p = sext64(x, w), q = sext64(y, w);
      if (q == -1)
        return mkc(-(uint64_t)p, w);
      if (q)
        return mkc(p / q, w);
      break;
    }
    case Instruction::SRem: {
      int64_t p = sext64(x, w), q = sext64(y, w);
      if (q == -1)
        return mkc(0, w);
      if (q)
        return mkc(p % q, w);
      break;
    }
    case Instruction::Shl:
      return mkc(y >= w ? 0 : x << y, w);
    case Instruction::LShr:
      return mkc(y >= w ? 0 : x >> y, w);
    case Instruction::AShr:
      return mkc(sext64(x, w) >> (y >= w ? w - 1 : y), w);
    case Instruction::And:
      return mkc(x & y, w);
    case Instruction::Or:
      return mkc(x | y, w);
    case Instruction::Xor:
      return mkc(x ^ y, w);
    }
  }
  // identities
  if (op == Instruction::Add || op == Instruction::Or ||
      op == Instruction::Xor || op == Instruction::Sub ||
      op == Instruction::Shl || op == Instruction::LShr) {
    if (b.k == 0 && b.c == 0)
      return a;
    if (a.k == 0 && a.c == 0 &&
        (op == Instruction::Add || op == Instruction::Or ||
         op == Instruction::Xor))
      return b;
  }
  if (op == Instruction::And && b.k == 0 && b.c == maskw(~0ULL, w))
    return a;
  if (w == 1) {
    Z3_ast x = toAst(a), y = toAst(b);
    Z3_ast ar[2] = {x, y};
    switch (op) {
    case Instruction::And:
      return fromAst(Z3_mk_and(C, 2, ar), 1);
    case Instruction::Or:
      return fromAst(Z3_mk_or(C, 2, ar), 1);
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Xor:
      return fromAst(Z3_mk_xor(C, x, y), 1);
    case Instruction::Mul:
      return fromAst(Z3_mk_and(C, 2, ar), 1);
    default:
      throw Abort{"i1 arith"};
    }
  }
  Z3_ast x = toAst(a), y = toAst(b), r;
  switch (op) {
  case Instruction::Add:
    r = Z3_mk_bvadd(C, x, y);
    break;
  case Instruction::Sub:
    r = Z3_mk_bvsub(C, x, y);
    break;
  case Instruction::Mul:
    r = Z3_mk_bvmul(C, x, y);
    break;
  case Instruction::UDiv:
    r = Z3_mk_bvudiv(C, x, y);
    break;
  case Instruction::URem:
    r = Z3_mk_bvurem(C, x, y);
    break;
  case Instruction::SDiv:
    r = Z3_mk_bvsdiv(C, x, y);
    break;
  case Instruction::SRem:
    r = Z3_mk_bvsrem(C, x, y);
    break;
  case Instruction::Shl:
    r = Z3_mk_bvshl(C, x, y);
    break;
  case Instruction::LShr:
    r = Z3_mk_bvlshr(C, x, y);
    break;
  case Instruction::AShr:
    r = Z3_mk_bvashr(C, x, y);
    break;
  case Instruction::And:
    r = Z3_mk_bvand(C, x, y);
    break;
  case Instruction::Or:
    r = Z3_mk_bvor(C, x, y);
    break;
  case Instruction::Xor:
    r = Z3_mk_bvxor(C, x, y);
    break;
  default:
    throw Abort{"binop"};
  }
  return fromAst(r, w);
}
static Val doCast(unsigned op, const Val &a, unsigned w) {
  switch (op) {
  case Instruction::BitCast:
  case Instruction::IntToPtr:
  case Instruction::PtrToInt:
  case Instruction::AddrSpaceCast:
    if (a.k == 2)
      return a;
    if (a.w == w)
      return a;
    if (a.w < w)
      return doCast(Instruction::ZExt, a, w);
    return doCast(Instruction::Trunc, a, w);
  case Instruction::Trunc:
    if (a.k == 0)
      return mkc(a.c, w);
    if (w == 1)
      return fromAst(
          Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, a.e), bvnum(1, 1)), 1);
    return fromAst(Z3_mk_extract(C, w - 1, 0, a.e), w);
  case Instruction::ZExt:
    if (a.k == 0 && w <= 64)
      return mkc(a.c, w);
    if (a.w == 1)
      return fromAst(Z3_mk_ite(C, toAst(a), bvnum(1, w), bvnum(0, w)), w);
    return fromAst(Z3_mk_zero_ext(C, w - a.w, toAst(a)), w);
  case Instruction::SExt:
    if (a.k == 0 && w <= 64)
      return mkc(sext64(a.c, a.w), w);
    if (a.w == 1)
      return fromAst(
          Z3_mk_ite(C, toAst(a), Z3_mk_bvnot(C, bvnum(0, w)), bvnum(0, w)), w);
    return fromAst(Z3_mk_sign_ext(C, w - a.w, toAst(a)), w);
  case Instruction::UIToFP:
  case Instruction::SIToFP: {
    if (a.k)
      throw Abort{"symbolic int-to-fp"};
    double d = op == Instruction::UIToFP ? (double)a.c
                                         : (double)sext64(a.c, a.w);
    if (w == 32) {
      float f = op == Instruction::UIToFP ? (float)a.c
                                          : (float)sext64(a.c, a.w);
      uint32_t t;
      memcpy(&t, &f, 4);
      return mkc(t, 32);
    }
    uint64_t t;
    memcpy(&t, &d, 8);
    return mkc(t, 64);
  }
  case Instruction::FPToUI:
  case Instruction::FPToSI: {
    if (a.k)
      throw Abort{"symbolic fp-to-int"};
    double d;
    if (a.w == 32) {
      float f;
      uint32_t t = a.c;
      memcpy(&f, &t, 4);
      d = f;
    } else
      memcpy(&d, &a.c, 8);
    return mkc(op == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d,
               w);
  }
  case Instruction::FPExt: {
    if (a.k || w != 64)
      throw Abort{"fpext"};
    float f;
    uint32_t t = a.c;
    memcpy(&f, &t, 4);
    double d = f;
    uint64_t u;
    memcpy(&u, &d, 8);
    return mkc(u, 64);
  }
  case Instruction::FPTrunc: {
    if (a.k || w != 32)
      throw Abort{"fptrunc"};
    double d;
    memcpy(&d, &a.c, 8);
    float f = d;
    uint32_t t;
    memcpy(&t, &f, 4);
    return mkc(t, 32);
  }
  }
  throw Abort{"cast"};
}
static Val doICmp(CmpInst::Predicate P, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.k == 2)
    throw Abort{"vector icmp"};
  if (a.k == 0 && b.k == 0) {
    uint64_t x = a.c, y = b.c;
    int64_t p = sext64(x, w), q = sext64(y, w);
    bool r = false;
    switch (P) {
    case CmpInst::ICMP_EQ:
      r = x == y;
      break;
    case CmpInst::ICMP_NE:
      r = x != y;
      break;
    case CmpInst::ICMP_UGT:
      r = x > y;
      break;
    case CmpInst::ICMP_UGE:
      r = x >= y;
      break;
    case CmpInst::ICMP_ULT:
      r = x < y;
      break;
    case CmpInst::ICMP_ULE:
      r = x <= y;
      break;
    case CmpInst::ICMP_SGT:
      r = p > q;
      break;
    case CmpInst::ICMP_SGE:
      r = p >= q;
      break;
    case CmpInst::ICMP_SLT:
      r = p < q;
      break;
    case CmpInst::ICMP_SLE:
      r = p <= q;
      break;
    default:
      throw Abort{"icmp"};
    }
    return mkc(r, 1);
  }
  Z3_ast x, y, r;
  if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
    x = toAst(a);
    y = toAst(b);
    r = Z3_mk_eq(C, x, y);
    if (P == CmpInst::ICMP_NE)
      r = mkNot(r);
    return fromAst(r, 1);
  }
  x = toBV(a);
  y = toBV(b);
  switch (P) {
  case CmpInst::ICMP_UGT:
    r = Z3_mk_bvugt(C, x, y);
    break;
  case CmpInst::ICMP_UGE:
    r = Z3_mk_bvuge(C, x, y);
    break;
  case CmpInst::ICMP_ULT:
    r = Z3_mk_bvult(C, x, y);
    break;
  case CmpInst::ICMP_ULE:
    r = Z3_mk_bvule(C, x, y);
    break;
  case CmpInst::ICMP_SGT:
    r = Z3_mk_bvsgt(C, x, y);
    break;
  case CmpInst::ICMP_SGE:
    r = Z3_mk_bvsge(C, x, y);
    break;
  case CmpInst::ICMP_SLT:
    r = Z3_mk_bvslt(C, x, y);
    break;
  case CmpInst::ICMP_SLE:
    r = Z3_mk_bvsle(C, x, y);
    break;
  default:
    throw Abort{"icmp"};
  }
  return fromAst(r, 1);
}
static Val doFCmp(CmpInst::Predicate P, const Val &a, const Val &b) {
  if (a.k || b.k)
    throw Abort{"symbolic fcmp"};
  double x, y;
  if (a.w == 32) {
    float f;
    uint32_t t = a.c;
    memcpy(&f, &t, 4);
    x = f;
    t = b.c;
    memcpy(&f, &t, 4);
    y = f;
  } else {
    memcpy(&x, &a.c, 8);
    memcpy(&y, &b.c, 8);
  }
  bool u = std::isnan(x) || std::isnan(y), r = false;
  switch (P) {
  case CmpInst::FCMP_OEQ:
    r = !u && x == y;
    break;
  case CmpInst::FCMP_UEQ:
    r = u || x == y;
    break;
  case CmpInst::FCMP_ONE:
    r = !u && x != y;
    break;
  case CmpInst::FCMP_UNE:
    r = u || x != y;
    break;
  case CmpInst::FCMP_OGT:
    r = !u && x > y;
    break;
  case CmpInst::FCMP_UGT:
    r = u || x > y;
    break;
  case CmpInst::FCMP_OGE:
    r = !u && x >= y;
    break;
  case CmpInst::FCMP_UGE:
    r = u || x >= y;
    break;
  case CmpInst::FCMP_OLT:
    r = !u && x < y;
    break;
  case CmpInst::FCMP_ULT:
    r = u || x < y;
    break;
  case CmpInst::FCMP_OLE:
    r = !u && x <= y;
    break;
  case CmpInst::FCMP_ULE:
    r = u || x <= y;
    break;
  case CmpInst::FCMP_ORD:
    r = !u;
    break;
  case CmpInst::FCMP_UNO:
    r = u;
    break;
  default:
    break;
  }
  return mkc(r, 1);
}
static Val ite(const Val &c, const Val &a, const Val &b) {
  if (c.k == 0)
    return c.c ? a : b;
  if (a.k == 2) {
    vector<Val> v;
    for (size_t i = 0; i < a.a->size(); ++i)
      v.push_back(ite(c, (*a.a)[i], (*b.a)[i]));
    return mkAgg(v);
  }
  if (a.k == 0 && b.k == 0 && a.c == b.c)
    return a;
  if (a.k == 1 && b.k == 1 && a.e == b.e)
    return a;
  return fromAst(Z3_mk_ite(C, c.e, toAst(a), toAst(b)), a.w);
}

// ---------------------------------------------------------------- memory ops
static void constToBytes(const Constant *K, Obj &O, uint64_t off) {
  Type *T = K->getType();
  if (isa<UndefValue>(K))
    return;
  if (isa<ConstantAggregateZero>(K) || isa<ConstantPointerNull>(K))
    return; // zero already
  if (auto *CD = dyn_cast<ConstantDataSequential>(K)) {
    StringRef R = CD->getRawDataValues();
    memcpy(&O.b[off], R.data(), R.size());
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(K)) {
    auto *SL = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < CS->getNumOperands(); ++i)
      constToBytes(CS->getOperand(i), O, off + SL->getElementOffset(i));
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(K)) {
    uint64_t es = DL->getTypeAllocSize(T->getArrayElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); ++i)
      constToBytes(CA->getOperand(i), O, off + i * es);
    return;
  }
  Val v = evalConst(K);
  unsigned n = (v.w + 7) / 8;
  if (v.k == 0) {
    for (unsigned i = 0; i < n; ++i)
      O.b[off + i] = v.c >> (8 * i);
    return;
  }
  throw Abort{"global initializer"};
}
static ObjP globalObj(GlobalVariable *G) {
  auto It = ConstG.find(G);
  if (It != ConstG.end())
    return It->second;
  auto O = std::make_shared<Obj>();
  O->base = GAddr[G];
  O->size = G->getValueType()->isSized()
                ? (uint64_t)DL->getTypeAllocSize(G->getValueType())
                : 64;
  if (!G->hasInitializer() && O->size < 64)
    O->size = 64;
  O->kind = 0;
  O->ro = G->isConstant();
  O->name = G->getName().str();
  O->b.assign(O->size, 0);
  O->k.assign(O->size, 0);
  if (G->hasInitializer())
    constToBytes(G->getInitializer(), *O, 0);
  ConstG[G] = O;
  return O;
}
static ObjP lookup(State &S, uint64_t a) {
  auto It = S.Mem.upper_bound(a);
  if (It != S.Mem.begin()) {
    --It;
    if (a < It->second->base + It->second->size ||
        (a == It->second->base && It->second->size == 0))
      return It->second;
  }
  auto G = AddrG.upper_bound(a);
  if (G != AddrG.begin()) {
    --G;
    ObjP O = globalObj(G->second);
    if (a < O->base + O->size) {
      S.Mem[O->base] = O;
      return O;
    }
  }
  return nullptr;
}
static Obj &writable(State &S, ObjP &O) {
  auto &Ref = S.Mem[O->base];
  if (Ref.use_count() > 2 || (Ref->kind == 0 && Ref.use_count() > 1)) {
    Ref = std::make_shared<Obj>(*O);
    O = Ref;
  }
  return *Ref;
}
static ObjP newObj(State &S, uint64_t base, uint64_t size, uint8_t kind,
                   const string &name) {
  auto O = std::make_shared<Obj>();
  O->base = base;
  O->size = size;
  O->kind = kind;
  O->b.assign(size, 0);
  O->k.assign(size, 2);
  O->name = name;
  S.Mem[base] = O;
  return O;
}
static uint64_t heapAlloc(State &S, uint64_t n, uint64_t align = 16) {
  if (align < 16)
    align = 16;
  S.HeapP = (S.HeapP + 64 + align - 1) / align * align;
  uint64_t b = S.HeapP;
  S.HeapP += n ? n : 1;
  newObj(S, b, n, 1, "heap");
  S.LiveHeap++;
  return b;
}

static void recordViol(State &S, const string &Label, const string &Loc,
                       Z3_ast negCond, bool haveModel);
static Site &siteOf(const string &label, const string &loc) {
  auto &s = Sites[label + "@" + loc];
  if (s.label.empty()) {
    s.label = label;
    s.loc = loc;
  }
  return s;
}
// generic failing obligation (path reaches a forbidden point)
static void failHere(State &S, const string &label) {
  string loc = locHere(S);
  auto &s = siteOf(label, loc);
  s.vcs++;
  Res r = checkSat(S.PC, nullptr, true);
  if (r == UNSAT) {
    s.z3++;
    S.Dead = true;
    return;
  }
  if (r == UNKNOWN) {
    s.unknown++;
    Undecided.insert("solver unknown at " + label + " " + loc);
    S.Dead = true;
    return;
  }
  s.failed++;
  recordViol(S, label, loc, nullptr, true);
  S.Dead = true;
}
// obligation: cond must hold. afterwards assumed
static void oblige(State &S, const Val &c, const string &label) {
  string loc = locHere(S);
  auto &s = siteOf(label, loc);
  s.vcs++;
  if (c.k == 0) {
    if (c.c) {
      s.simp++;
      return;
    }
    s.vcs--;
    failHere(S, label);
    return;
  }
  Z3_ast neg = mkNot(c.e);
  Res r = checkSat(S.PC, neg, true);
  if (r == UNSAT) {
    s.z3++;
    S.PC.push_back(c.e);
    return;
  }
  if (r == UNKNOWN) {
    s.unknown++;
    Undecided.insert("solver unknown at " + label + " " + loc);
    S.PC.push_back(c.e);
    return;
  }
  s.failed++;
  recordViol(S, label, loc, neg, true);
  S.PC.push_back(c.e);
  if (checkSat(S.PC, nullptr) == UNSAT)
    S.Dead = true;
}
static void recordViol(State &S, const string &Label, const string &Loc,
                       Z3_ast neg, bool haveModel) {
  if (Viols.size() >= 12)
    return;
  unsigned same = 0;
  for (auto &v : Viols)
    same += v.label == Label && v.loc == Loc;
  if (same >= 3)
    return;
  Viol V;
  V.label = Label;
  V.loc = Loc;
  V.stack = stackOf(S);
  V.trace = S.Labels;
  json::Array ins, ufs;
  if (LastModel) {
    for (auto &i : S.Ins)
      ins.push_back(json::Object{{"name", i.name},
                                 {"w", i.w},
                                 {"v", std::to_string(evalU64(LastModel, i.e))}});
    for (auto &u : S.UFs) {
      json::Array args;
      for (auto *a : u.args)
        args.push_back(std::to_string(evalU64(LastModel, a)));
      ufs.push_back(
          json::Object{{"f", u.name},
                       {"args", std::move(args)},
                       {"v", std::to_string(evalU64(LastModel, u.res))}});
    }
  }
  V.inputs = std::move(ins);
  V.ufs = std::move(ufs);
  Viols.push_back(std::move(V));
}

// ranges / cuts
static void noteWrite(State &S, const ObjP &O, uint64_t a, uint64_t n) {
  for (auto &c : S.Cuts) {
    bool fresh = O->kind == 1   ? O->base >= c.heapMark
                 : O->kind == 2 ? O->base < c.stackMark
                                : false;
    if (fresh)
      continue;
    bool ok = false;
    for (auto &r : c.allowed)
      if (a >= r.first && a + n <= r.first + r.second)
        ok = true;
    if (!ok) {
      c.bad = true;
      Undecided.insert("loop cut: write outside the havoc frame (" + O->name +
                       "+" + std::to_string(a - O->base) + ") at " +
                       locOf(&*S.St.back().It));
    }
  }
}
static Val loadBytes(State &S, Obj &O, uint64_t off, unsigned n, unsigned w) {
  bool allc = true;
  for (unsigned i = 0; i < n; ++i)
    if (O.k[off + i]) {
      allc = false;
      break;
    }
  if (allc && n <= 8) {
    uint64_t v = 0;
    memcpy(&v, &O.b[off], n);
    return mkc(v, w);
  }
  if (!allc && O.k[off] == 1) {
    auto &s0 = O.s[off];
    if (s0.idx == 0 && s0.n == n) {
      bool same = true;
      for (unsigned i = 1; i < n && same; ++i) {
        if (O.k[off + i] != 1) {
          same = false;
          break;
        }
        auto &si = O.s[off + i];
        same = si.t == s0.t && si.idx == i && si.n == n;
      }
      if (same) {
        Val v = mksraw(s0.t, n * 8);
        if (w < n * 8)
          v = doCast(Instruction::Trunc, v, w);
        return v;
      }
    }
  }
  // undef run: materialise a fresh value
  bool allu = true;
  for (unsigned i = 0; i < n; ++i)
    allu &= O.k[off + i] == 2;
  if (allu && n <= 8) {
    Z3_ast f = freshAst("uninit", n * 8);
    for (unsigned i = 0; i < n; ++i) {
      O.k[off + i] = 1;
      O.s[off + i] = SymB{f, (uint16_t)i, (uint16_t)n};
    }
    Val v = mksraw(f, n * 8);
    if (w < n * 8)
      v = doCast(Instruction::Trunc, v, w);
    return v;
  }
  Z3_ast r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Z3_ast b;
    if (O.k[off + i] == 0)
      b = bvnum(O.b[off + i], 8);
    else if (O.k[off + i] == 1) {
      auto &s = O.s[off + i];
      b = s.n == 1 ? s.t : Z3_mk_extract(C, s.idx * 8 + 7, s.idx * 8, s.t);
    } else {
      b = freshAst("uninit", 8);
      O.k[off + i] = 1;
      O.s[off + i] = SymB{b, 0, 1};
    }
    r = r ? Z3_mk_concat(C, b, r) : b;
  }
  Val v = fromAst(r, n * 8);
  if (w < n * 8)
    v = doCast(Instruction::Trunc, v, w);
  return v;
}
static void storeBytes(Obj &O, uint64_t off, const Val &v0, unsigned n) {
  Val v = v0;
  if (v.w < n * 8)
    v = doCast(Instruction::ZExt, v, n * 8);
  if (v.k == 0) {
    for (unsigned i = 0; i < n; ++i) {
      O.b[off + i] = v.c >> (8 * i);
      if (O.k[off + i] == 1)
        O.s.erase(off + i);
      O.k[off + i] = 0;
    }
    return;
  }
  if (isNum(v.e)) { // wide numeral
    for (unsigned i = 0; i < n; ++i) {
      Z3_ast e = Z3_simplify(C, Z3_mk_extract(C, i * 8 + 7, i * 8, v.e));
      uint64_t u = 0;
      Z3_get_numeral_uint64(C, e, &u);
      O.b[off + i] = u;
      if (O.k[off + i] == 1)
        O.s.erase(off + i);
      O.k[off + i] = 0;
    }
    return;
  }
  for (unsigned i = 0; i < n; ++i) {
    O.k[off + i] = 1;
    O.s[off + i] = SymB{v.e, (uint16_t)i, (uint16_t)n};
  }
}
static Val loadT(State &S, ObjP &O, uint64_t off, Type *T) {
  if (T->isStructTy()) {
    auto *SL = DL->getStructLayout(cast<StructType>(T));
    vector<Val> v;
    for (unsigned i = 0; i < T->getStructNumElements(); ++i)
      v.push_back(
          loadT(S, O, off + SL->getElementOffset(i), T->getStructElementType(i)));
    return mkAgg(v);
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    Type *ET = T->isArrayTy() ? T->getArrayElementType() : T->getScalarType();
    unsigned n = T->isArrayTy() ? T->getArrayNumElements()
                                : cast<FixedVectorType>(T)->getNumElements();
    uint64_t es = DL->getTypeAllocSize(ET);
    vector<Val> v;
    for (unsigned i = 0; i < n; ++i)
      v.push_back(loadT(S, O, off + i * es, ET));
    return mkAgg(v);
  }
  unsigned n = DL->getTypeStoreSize(T);
  bool hasUndef = false;
  for (unsigned i = 0; i < n; ++i)
    hasUndef |= O->k[off + i] == 2;
  if (hasUndef && !O->ro)
    writable(S, O), O = S.Mem[O->base];
  return loadBytes(S, *O, off, n, widthOf(T));
}
static void storeT(Obj &O, uint64_t off, const Val &v, Type *T) {
  if (T->isStructTy()) {
    auto *SL = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < T->getStructNumElements(); ++i)
      storeT(O, off + SL->getElementOffset(i), (*v.a)[i],
             T->getStructElementType(i));
    return;
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    Type *ET = T->isArrayTy() ? T->getArrayElementType() : T->getScalarType();
    uint64_t es = DL->getTypeAllocSize(ET);
    for (unsigned i = 0; i < v.a->size(); ++i)
      storeT(O, off + i * es, (*v.a)[i], ET);
    return;
  }
  storeBytes(O, off, v, DL->getTypeStoreSize(T));
}

// ---------------------------------------------------------------- engine
static vector<StateP> Work;

static DenseMap<const Value *, unsigned> &numbering(const Function *F) {
  auto &M = RegNo[F];
  if (M.empty()) {
    unsigned n = 0;
    for (auto &A : F->args())
      M[&A] = n++;
    for (auto &BB : *F)
      for (auto &I : BB)
        if (!I.getType()->isVoidTy())
          M[&I] = n++;
    if (M.empty())
      M[F] = n++;
  }
  return M;
}
static Val getV(State &S, const Value *V) {
  if (auto *K = dyn_cast<Constant>(V))
    return evalConst(K);
  auto &F = S.St.back();
  auto &M = RegNo[F.F];
  auto It = M.find(V);
  if (It == M.end())
    throw Abort{"operand kind"};
  return F.R[It->second];
}
static void setV(State &S, const Value *V, const Val &v) {
  auto &F = S.St.back();
  F.R[RegNo[F.F][V]] = v;
}
static void pushFrame(State &S, Function *F, const vector<Val> &args,
                      CallBase *CS) {
  if (S.St.size() > 900)
    throw Abort{"recursion too deep in " + demangle(F->getName().str())};
  Executed.insert(F);
  auto &M = numbering(F);
  Frame Fr;
  Fr.F = F;
  Fr.BB = &F->getEntryBlock();
  Fr.It = Fr.BB->begin();
  Fr.R.resize(M.size());
  unsigned i = 0;
  for (auto &A : F->args()) {
    if (i >= args.size())
      break;
    Val v = args[i];
    if (A.hasByValAttr()) {
      Type *T = A.getParamByValType();
      uint64_t sz = DL->getTypeAllocSize(T);
      S.StackP = (S.StackP - sz - 32) & ~63ULL;
      auto O = newObj(S, S.StackP, sz, 2, "byval");
      Fr.Allocas.push_back(O->base);
      if (v.k)
        throw Abort{"symbolic byval"};
      ObjP Src = lookup(S, v.c);
      if (!Src)
        throw Abort{"byval source"};
      uint64_t so = v.c - Src->base;
      for (uint64_t j = 0; j < sz; ++j) {
        O->b[j] = Src->b[so + j];
        O->k[j] = Src->k[so + j];
        if (O->k[j] == 1)
          O->s[j] = Src->s[so + j];
      }
      v = mkc(O->base, 64);
    }
    Fr.R[i++] = v;
  }
  Fr.CS = CS;
  S.St.push_back(std::move(Fr));
}
static void enterBlock(State &S, BasicBlock *To) {
  auto &F = S.St.back();
  F.Prev = F.BB;
  F.BB = To;
  F.It = To->begin();
  // phis in parallel
  vector<std::pair<const Value *, Val>> Upd;
  while (auto *P = dyn_cast<PHINode>(&*F.It)) {
    Upd.push_back({P, getV(S, P->getIncomingValueForBlock(F.Prev))});
    ++F.It;
  }
  for (auto &u : Upd)
    setV(S, u.first, u.second);
}
static StateP cloneS(State &S) {
  ++NForks;
  return std::make_unique<State>(S);
}
static void assumeS(State &S, const Val &c) {
  if (c.k == 0) {
    if (!c.c)
      S.Dead = true;
    return;
  }
  S.PC.push_back(c.e);
  Res r = checkSat(S.PC, nullptr);
  if (r == UNSAT)
    S.Dead = true;
}
static Val mkEqU(const Val &a, uint64_t v) {
  return doICmp(CmpInst::ICMP_EQ, a, mkc(v, a.w));
}
// Fork the state over all feasible values of reg V (current instr re-executed)
static void concretize(State &S, const Value *V, unsigned limit = 600) {
  Val v = getV(S, V);
  if (v.k == 0)
    return;
  if (isa<Constant>(V))
    throw Abort{"concretize constant"};
  vector<uint64_t> vals;
  vector<Z3_ast> pc = S.PC;
  while (true) {
    Res r = checkSat(pc, nullptr, true);
    if (r == UNSAT)
      break;
    if (r == UNKNOWN || !LastModel)
      throw Abort{"solver unknown while enumerating"};
    uint64_t x = evalU64(LastModel, v.e);
    vals.push_back(x);
    if (vals.size() > limit)
      throw Abort{"too many values for symbolic address/size at " +
                  locOf(&*S.St.back().It)};
    Val eq = mkEqU(v, x);
    pc.push_back(mkNot(toAst(eq)));
  }
  if (vals.empty()) {
    S.Dead = true;
    return;
  }
  for (size_t i = 1; i < vals.size(); ++i) {
    auto N = cloneS(S);
    N->PC.push_back(toAst(mkEqU(v, vals[i])));
    setV(*N, V, mkc(vals[i], v.w));
    Work.push_back(std::move(N));
  }
  S.PC.push_back(toAst(mkEqU(v, vals[0])));
  setV(S, V, mkc(vals[0], v.w));
}
static void collectNums(Z3_ast e, set<Z3_ast> &seen, vector<uint64_t> &out) {
  if (seen.size() > 4000 || !seen.insert(e).second)
    return;
  if (isNum(e)) {
    uint64_t u;
    if (Z3_get_bv_sort_size(C, Z3_get_sort(C, e)) == 64 &&
        Z3_get_numeral_uint64(C, e, &u))
      out.push_back(u);
    return;
  }
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST)
    return;
  Z3_app a = Z3_to_app(C, e);
  for (unsigned i = 0; i < Z3_get_app_num_args(C, a); ++i)
    collectNums(Z3_get_app_arg(C, a, i), seen, out);
}
static bool hasProvenance(State &S, Z3_ast e) {
  set<Z3_ast> seen;
  vector<uint64_t> nums;
  collectNums(e, seen, nums);
  for (auto n : nums)
    if (n > 4096 && lookup(S, n))
      return true;
  return false;
}
static string describeAddr(State &S, uint64_t a) {
  if (a < 4096)
    return "null pointer dereference";
  auto It = S.Freed.upper_bound(a);
  if (It != S.Freed.begin()) {
    --It;
    if (a < It->first + std::max<uint64_t>(It->second, 1))
      return "use after free";
  }
  return "out-of-bounds memory access";
}
// concrete access check. returns null (and kills the state) if bad
static ObjP access(State &S, uint64_t a, uint64_t n, bool write) {
  ObjP O = lookup(S, a);
  auto &st = Sites["memory-safety@"];
  if (st.label.empty())
    st.label = "memory-safety";
  if (!O || a + n > O->base + O->size) {
    failHere(S, describeAddr(S, a));
    return nullptr;
  }
  if (write && O->ro) {
    failHere(S, "write to constant memory");
    return nullptr;
  }
  st.vcs++;
  st.simp++;
  return O;
}
// symbolic address: ensure in-bounds of one object. Returns object or null if
// dead.
static ObjP resolveSym(State &S, const Val &p, uint64_t n) {
  Res r = checkSat(S.PC, nullptr, true);
  if (r != SAT || !LastModel) {
    if (r == UNSAT) {
      S.Dead = true;
      return nullptr;
    }
    throw Abort{"solver unknown resolving pointer"};
  }
  set<Z3_ast> seen;
  vector<uint64_t> nums;
  collectNums(p.e, seen, nums);
  ObjP O;
  uint64_t v = evalU64(LastModel, p.e);
  if (v > 4096)
    O = lookup(S, v);
  auto inB = [&](ObjP &O) {
    Z3_ast ar[2] = {Z3_mk_bvuge(C, p.e, bvnum(O->base, 64)),
                    Z3_mk_bvule(C, p.e, bvnum(O->base + O->size - n, 64))};
    return Z3_mk_and(C, 2, ar);
  };
  if (O && O->size < n)
    O = nullptr;
  if (!O || v + n > O->base + O->size) {
    // candidate by provenance
    ObjP Cand;
    for (auto u : nums)
      if (u > 4096) {
        auto X = lookup(S, u);
        if (X && X->size >= n && checkSat(S.PC, inB(X)) == SAT) {
          Cand = X;
          break;
        }
      }
    bool prov = false;
    for (auto u : nums)
      if (u > 4096 && lookup(S, u))
        prov = true;
    if (!prov)
      throw Abort{"dereference of an opaque symbolic pointer at " +
                  locOf(&*S.St.back().It)};
    // feasible out-of-bounds
    auto &s = siteOf(describeAddr(S, v), locOf(&*S.St.back().It));
    s.vcs++;
    s.failed++;
    checkSat(S.PC, Z3_mk_eq(C, p.e, bvnum(v, 64)), true);
    recordViol(S, s.label, s.loc, nullptr, true);
    if (!Cand) {
      S.Dead = true;
      return nullptr;
    }
    S.PC.push_back(inB(Cand));
    return Cand;
  }
  Z3_ast in = inB(O);
  r = checkSat(S.PC, mkNot(in), true);
  auto &s = siteOf("memory-safety", "");
  if (r == UNSAT) {
    s.vcs++;
    s.z3++;
    return O;
  }
  if (r == UNKNOWN || !LastModel)
    throw Abort{"solver unknown in bounds check"};
  uint64_t v2 = evalU64(LastModel, p.e);
  ObjP O2 = v2 > 4096 ? lookup(S, v2) : nullptr;
  if (O2 && O2 != O && v2 + n <= O2->base + O2->size) {
    auto N = cloneS(S);
    N->PC.push_back(mkNot(in));
    Work.push_back(std::move(N));
    S.PC.push_back(in);
    return O;
  }
  if (!hasProvenance(S, p.e))
    throw Abort{"dereference of an opaque symbolic pointer at " +
                locOf(&*S.St.back().It)};
  auto &s2 = siteOf(describeAddr(S, v2), locOf(&*S.St.back().It));
  s2.vcs++;
  s2.failed++;
  checkSat(S.PC, mkNot(in), true);
  recordViol(S, s2.label, s2.loc, nullptr, true);
  S.PC.push_back(in);
  return O;
}
static vector<uint64_t> enumVals(State &S, Z3_ast e, unsigned limit) {
  vector<uint64_t> vals;
  vector<Z3_ast> pc = S.PC;
  while (true) {
    Res r = checkSat(pc, nullptr, true);
    if (r == UNSAT)
      break;
    if (r == UNKNOWN || !LastModel)
      throw Abort{"solver unknown while enumerating"};
    uint64_t x = evalU64(LastModel, e);
    vals.push_back(x);
    if (vals.size() > limit)
      throw Abort{"too many values for symbolic address at " +
                  locOf(&*S.St.back().It)};
    pc.push_back(mkNot(Z3_mk_eq(C, e, bvnum(x, 64))));
  }
  return vals;
}

static string readCStr(State &S, uint64_t a) {
  string r;
  for (;;) {
    ObjP O = lookup(S, a);
    if (!O)
      return r;
    uint64_t off = a - O->base;
    if (off >= O->size || O->k[off] != 0)
      return r;
    char ch = O->b[off];
    if (!ch)
      return r;
    r += ch;
    ++a;
    if (r.size() > 400)
      return r;
  }
}
static void copyMem(State &S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n)
    return;
  ObjP SO = access(S, s, n, false);
  if (!SO)
    return;
  ObjP DO = access(S, d, n, true);
  if (!DO)
    return;
  noteWrite(S, DO, d, n);
  uint64_t so = s - SO->base, doo = d - DO->base;
  vector<uint8_t> b(SO->b.begin() + so, SO->b.begin() + so + n),
      k(SO->k.begin() + so, SO->k.begin() + so + n);
  vector<std::pair<uint32_t, SymB>> sy;
  for (auto It = SO->s.lower_bound(so); It != SO->s.end() && It->first < so + n;
       ++It)
    sy.push_back({It->first - so, It->second});
  SO.reset();
  Obj &W = writable(S, DO);
  memcpy(&W.b[doo], b.data(), n);
  memcpy(&W.k[doo], k.data(), n);
  W.s.erase(W.s.lower_bound(doo), W.s.lower_bound(doo + n));
  for (auto &p : sy)
    if (k[p.first] == 1)
      W.s[doo + p.first] = p.second;
}
static void finishCall(State &S, CallBase *CB) {
  // advance after a call that has completed
  if (auto *II = dyn_cast<InvokeInst>(CB))
    enterBlock(S, II->getNormalDest());
  else
    ++S.St.back().It;
}
static void retVal(State &S, CallBase *CB, const Val &v) {
  if (!CB->getType()->isVoidTy()) {
    Val x = v;
    unsigned w = widthOf(CB->getType());
    if (x.k != 2 && x.w != w) {
      if (x.w == 0)
        x = undefOf(CB->getType());
      else
        x = doCast(x.w < w ? Instruction::ZExt : Instruction::Trunc, x, w);
    }
    setV(S, CB, x);
  }
  finishCall(S, CB);
}
static Val defaultRet(CallBase *CB) {
  Type *T = CB->getType();
  if (T->isVoidTy())
    return Val();
  return undefOf(T);
}

static bool startsWith(StringRef a, const char *b) { return a.startswith(b); }

static string demName(const Function *F) {
  static DenseMap<const Function *, string *> M;
  auto *&p = M[F];
  if (!p)
    p = new string(demangle(F->getName().str()));
  return *p;
}

static Val ufApply(State &S, const string &name, const vector<Val> &args,
                   unsigned w) {
  vector<Z3_ast> as;
  vector<Z3_sort> ss;
  for (auto &a : args) {
    Val x = a;
    if (x.w < 64)
      x = doCast(Instruction::ZExt, x, 64);
    as.push_back(Z3_simplify(C, toAst(x)));
    ss.push_back(bvsort(64));
  }
  Z3_ast r;
  if (as.empty())
    r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("uf_" + name).c_str()),
                    bvsort(w));
  else {
    Z3_func_decl d = Z3_mk_func_decl(
        C,
        Z3_mk_string_symbol(C, ("uf_" + name + "_" +
                                std::to_string(as.size()) + "_" +
                                std::to_string(w))
                                   .c_str()),
        ss.size(), ss.data(), bvsort(w));
    r = Z3_mk_app(C, d, as.size(), as.data());
  }
  S.UFs.push_back({name, as, r});
  return mksraw(r, w);
}

// returns true if handled
static bool callBuiltin(State &S, CallBase *CB, Function *F) {
  StringRef N = F->getName();
  auto arg = [&](unsigned i) { return getV(S, CB->getArgOperand(i)); };
  auto conc = [&](unsigned i) -> bool {
    Val v = arg(i);
    if (v.k == 0)
      return true;
    concretize(S, CB->getArgOperand(i));
    return S.Dead ? false : true;
  };
  if (F->isIntrinsic()) {
    auto ID = F->getIntrinsicID();
    switch (ID) {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch:
    case Intrinsic::donothing:
    case Intrinsic::stackrestore:
    case Intrinsic::invariant_end:
    case Intrinsic::var_annotation:
      finishCall(S, CB);
      return true;
    case Intrinsic::assume:
      finishCall(S, CB);
      return true;
    case Intrinsic::stacksave:
    case Intrinsic::invariant_start:
      retVal(S, CB, mkc(0, 64));
      return true;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation:
    case Intrinsic::annotation:
      retVal(S, CB, arg(0));
      return true;
    case Intrinsic::is_constant:
      retVal(S, CB, mkc(0, 1));
      return true;
    case Intrinsic::objectsize:
      retVal(S, CB, mkc(~0ULL, widthOf(CB->getType())));
      return true;
    case Intrinsic::eh_typeid_for:
      retVal(S, CB, mkc(1, 32));
      return true;
    case Intrinsic::trap:
    case Intrinsic::debugtrap:
      failHere(S, "trap reached");
      return true;
    case Intrinsic::ubsantrap: {
      static const char *names[] = {
          "add-overflow",       "builtin-unreachable", "cfi-check",
          "division-overflow/division-by-zero", "dynamic-type-cache",
          "float-cast-overflow", "function-type-mismatch",
          "implicit-conversion", "invalid-builtin", "invalid-objc-cast",
          "load-invalid-value", "missing-return", "mul-overflow",
          "negate-overflow", "nullability-arg", "nullability-return",
          "nonnull-arg", "nonnull-return", "out-of-bounds index",
          "pointer-overflow", "shift out of range", "sub-overflow",
          "type-mismatch", "alignment-assumption", "vla-bound"};
      Val v = arg(0);
      failHere(S, string("undefined behaviour: ") +
                      (v.k == 0 && v.c < 25 ? names[v.c] : "ubsan"));
      return true;
    }
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      if (!conc(0) || !conc(1) || !conc(2))
        return true;
      copyMem(S, arg(0).c, arg(1).c, arg(2).c);
      if (!S.Dead)
        finishCall(S, CB);
      return true;
    }
    case Intrinsic::memset: {
      if (!conc(0) || !conc(2))
        return true;
      uint64_t d = arg(0).c, n = arg(2).c;
      Val v = arg(1);
      if (n) {
        ObjP O = access(S, d, n, true);
        if (!O)
          return true;
        noteWrite(S, O, d, n);
        Obj &W = writable(S, O);
        for (uint64_t i = 0; i < n; ++i)
          storeBytes(W, d - W.base + i, v, 1);
      }
      finishCall(S, CB);
      return true;
    }
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: {
      Val a = arg(0), b = arg(1), r, o;
      unsigned w = a.w;
      bool sg = ID == Intrinsic::smul_with_overflow ||
                ID == Intrinsic::sadd_with_overflow ||
                ID == Intrinsic::ssub_with_overflow;
      unsigned op = (ID == Intrinsic::umul_with_overflow ||
                     ID == Intrinsic::smul_with_overflow)
                        ? Instruction::Mul
                    : (ID == Intrinsic::uadd_with_overflow ||
                       ID == Intrinsic::sadd_with_overflow)
                        ? Instruction::Add
                        : Instruction::Sub;
      r = doBin(op, a, b);
      if (a.k == 0 && b.k == 0) {
        __int128 x, y, z;
        if (sg) {
          x = sext64(a.c, w);
          y = sext64(b.c, w);
        } else {
          x = a.c;
          y = b.c;
        }
        z = op == Instruction::Mul   ? x * y
            : op == Instruction::Add ? x + y
                                     : x - y;
        bool ov = sg ? (z != (__int128)sext64((uint64_t)z, w))
                     : (z < 0 || (unsigned __int128)z !=
                                     (unsigned __int128)maskw((uint64_t)z, w));
        o = mkc(ov, 1);
      } else {
        Z3_ast x = toBV(a), y = toBV(b), ok;
        if (op == Instruction::Add) {
          ok = Z3_mk_bvadd_no_overflow(C, x, y, sg);
          if (sg) {
            Z3_ast ar[2] = {ok, Z3_mk_bvadd_no_underflow(C, x, y)};
            ok = Z3_mk_and(C, 2, ar);
          }
        } else if (op == Instruction::Sub) {
          ok = Z3_mk_bvsub_no_underflow(C, x, y, sg);
          if (sg) {
            Z3_ast ar[2] = {ok, Z3_mk_bvsub_no_overflow(C, x, y)};
            ok = Z3_mk_and(C, 2, ar);
          }
        } else {
          ok = Z3_mk_bvmul_no_overflow(C, x, y, sg);
          if (sg) {
            Z3_ast ar[2] = {ok, Z3_mk_bvmul_no_underflow(C, x, y)};
            ok = Z3_mk_and(C, 2, ar);
          }
        }
        o = fromAst(mkNot(ok), 1);
      }
      retVal(S, CB, mkAgg({r, o}));
      return true;
    }
    case Intrinsic::umin:
    case Intrinsic::umax:
    case Intrinsic::smin:
    case Intrinsic::smax: {
      Val a = arg(0), b = arg(1);
      auto P = ID == Intrinsic::umin   ? CmpInst::ICMP_ULT
               : ID == Intrinsic::umax ? CmpInst::ICMP_UGT
               : ID == Intrinsic::smin ? CmpInst::ICMP_SLT
                                       : CmpInst::ICMP_SGT;
      retVal(S, CB, ite(doICmp(P, a, b), a, b));
      return true;
    }
    case Intrinsic::ceil:
    case Intrinsic::floor:
    case Intrinsic::trunc:
    case Intrinsic::fabs: {
      Val a = arg(0);
      if (a.k)
        throw Abort{"symbolic floating point"};
      auto f = [&](double x) {
        return ID == Intrinsic::ceil    ? ceil(x)
               : ID == Intrinsic::floor ? floor(x)
               : ID == Intrinsic::trunc ? trunc(x)
                                        : fabs(x);
      };
      if (a.w == 32) {
        float x;
        uint32_t t = a.c;
        memcpy(&x, &t, 4);
        x = f(x);
        memcpy(&t, &x, 4);
        retVal(S, CB, mkc(t, 32));
      } else {
        double x;
        memcpy(&x, &a.c, 8);
        x = f(x);
        uint64_t t;
        memcpy(&t, &x, 8);
        retVal(S, CB, mkc(t, 64));
      }
      return true;
    }
    case Intrinsic::abs: {
      Val a = arg(0);
      retVal(S, CB,
             ite(doICmp(CmpInst::ICMP_SLT, a, mkc(0, a.w)),
                 doBin(Instruction::Sub, mkc(0, a.w), a), a));
      return true;
    }
    case Intrinsic::uadd_sat: {
      Val a = arg(0), b = arg(1);
      Val r = doBin(Instruction::Add, a, b);
      retVal(S, CB,
             ite(doICmp(CmpInst::ICMP_ULT, r, a), mkc(~0ULL, a.w), r));
      return true;
    }
    case Intrinsic::usub_sat: {
      Val a = arg(0), b = arg(1);
      retVal(S, CB,
             ite(doICmp(CmpInst::ICMP_ULT, a, b), mkc(0, a.w),
                 doBin(Instruction::Sub, a, b)));
      return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      Val a = arg(0), b = arg(1), s = arg(2);
      unsigned w = a.w;
      if (s.k)
        throw Abort{"symbolic fshl"};
      unsigned k = s.c % w;
      if (ID == Intrinsic::fshl)
        retVal(S, CB,
               k == 0 ? a
                      : doBin(Instruction::Or,
                              doBin(Instruction::Shl, a, mkc(k, w)),
                              doBin(Instruction::LShr, b, mkc(w - k, w))));
      else
        retVal(S, CB,
               k == 0 ? b
                      : doBin(Instruction::Or,
                              doBin(Instruction::Shl, a, mkc(w - k, w)),
                              doBin(Instruction::LShr, b, mkc(k, w))));
      return true;
    }
    case Intrinsic::bswap:
    case Intrinsic::ctpop:
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
      Val a = arg(0);
      unsigned w = a.w;
      if (a.k == 0) {
        APInt A(w, a.c);
        retVal(S, CB,
               mkc(ID == Intrinsic::bswap   ? A.byteSwap().getZExtValue()
                   : ID == Intrinsic::ctpop ? A.countPopulation()
                   : ID == Intrinsic::ctlz  ? A.countLeadingZeros()
                                            : A.countTrailingZeros(),
                   w));
        return true;
      }
      if (ID == Intrinsic::ctpop) {
        Val r = mkc(0, w);
        for (unsigned i = 0; i < w; ++i)
          r = doBin(Instruction::Add, r,
                    doCast(Instruction::ZExt,
                           fromAst(Z3_mk_eq(C, Z3_mk_extract(C, i, i, a.e),
                                            bvnum(1, 1)),
                                   1),
                           w));
        retVal(S, CB, r);
        return true;
      }
      if (ID == Intrinsic::cttz || ID == Intrinsic::ctlz) {
        Z3_ast r = bvnum(w, w);
        for (unsigned j = 0; j < w; ++j) {
          unsigned i = ID == Intrinsic::cttz ? w - 1 - j : j;
          unsigned res = ID == Intrinsic::cttz ? i : w - 1 - i;
          r = Z3_mk_ite(
              C, Z3_mk_eq(C, Z3_mk_extract(C, i, i, a.e), bvnum(1, 1)),
              bvnum(res, w), r);
        }
        retVal(S, CB, fromAst(r, w));
        return true;
      }
      throw Abort{"symbolic bswap"};
    }
    default:
      throw Abort{"intrinsic " + N.str()};
    }
  }
  // ---- verifier intrinsics
  if (startsWith(N, "pv_")) {
    if (N == "pv_any_bits") {
      if (!conc(0))
        return true;
      unsigned w = arg(0).c;
      string nm = readCStr(S, arg(1).c);
      Z3_ast e = freshAst(nm, w);
      S.Ins.push_back({nm, w, e});
      Val v = mksraw(e, w);
      if (w < 64)
        v = doCast(Instruction::ZExt, v, 64);
      retVal(S, CB, v);
      return true;
    }
    if (N == "pv_assume_") {
      Val c = arg(0);
      if (c.w != 1)
        c = doICmp(CmpInst::ICMP_NE, c, mkc(0, c.w));
      assumeS(S, c);
      if (!S.Dead)
        finishCall(S, CB);
      return true;
    }
    if (N == "pv_assert_") {
      Val c = arg(0);
      if (c.w != 1)
        c = doICmp(CmpInst::ICMP_NE, c, mkc(0, c.w));
      string lab = readCStr(S, arg(1).c);
      oblige(S, c, "contract: " + lab);
      if (!S.Dead)
        finishCall(S, CB);
      return true;
    }
    if (N == "pv_fork_") { // fork over 0..n-1
      if (!conc(0))
        return true;
      unsigned n = arg(0).c;
      string nm = readCStr(S, arg(1).c);
      if (n == 0) {
        S.Dead = true;
        return true;
      }
      for (unsigned i = 1; i < n; ++i) {
        auto M = cloneS(S);
        M->Ins.push_back({nm, 64, bvnum(i, 64)});
        retVal(*M, CB, mkc(i, 64));
        Work.push_back(std::move(M));
      }
      S.Ins.push_back({nm, 64, bvnum(0, 64)});
      retVal(S, CB, mkc(0, 64));
      return true;
    }
    if (N == "pv_concrete_") {
      if (!conc(0))
        return true;
      retVal(S, CB, arg(0));
      return true;
    }
    if (startsWith(N, "pv_uf")) { // pv_ufN(name, a...)
      string nm = readCStr(S, arg(0).c);
      vector<Val> as;
      for (unsigned i = 1; i < CB->arg_size(); ++i)
        as.push_back(arg(i));
      retVal(S, CB, ufApply(S, nm, as, 64));
      return true;
    }
    if (N == "pv_cover_") {
      string nm = readCStr(S, arg(0).c);
      Covers[nm]++;
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_want_cover_") {
      CoverWanted.insert(readCStr(S, arg(0).c));
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_note_assumption_") {
      Assumed.insert(readCStr(S, arg(0).c));
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_note_bounded_") {
      Bounded.insert(readCStr(S, arg(0).c));
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_note_invariant_") {
      LoopInvs.insert(readCStr(S, arg(0).c));
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_replace_") {
      if (!conc(0) || !conc(1))
        return true;
      auto a = AddrF.find(arg(0).c), b = AddrF.find(arg(1).c);
      if (a == AddrF.end() || b == AddrF.end())
        throw Abort{"pv_replace: not a function"};
      S.Repl[a->second] = b->second;
      Replaced.insert(demName(a->second));
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_unreplace_") {
      auto a = AddrF.find(arg(0).c);
      if (a != AddrF.end())
        S.Repl.erase(a->second);
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_symbolic_") {
      retVal(S, CB, mkc(1, 32));
      return true;
    }
    if (N == "pv_live_heap_") {
      retVal(S, CB, mkc(S.LiveHeap, 64));
      return true;
    }
    if (N == "pv_is_live_") { // is address inside a live object?
      if (!conc(0))
        return true;
      retVal(S, CB, mkc(lookup(S, arg(0).c) != nullptr, 32));
      return true;
    }
    if (N == "pv_die_") {
      S.Dead = true;
      ++NKilled;
      return true;
    }
    if (N == "pv_done_") { // the path is complete: nothing is left to show
      S.Dead = true;
      ++NDone;
      return true;
    }
    if (N == "pv_abort_path_") {
      throw Abort{"contract: " + readCStr(S, arg(0).c)};
    }
    if (N == "pv_must_equal_") { // is (a==b) valid?  (no fork)
      Val c = doICmp(CmpInst::ICMP_EQ, arg(0), arg(1));
      bool r = c.k == 0 ? c.c : checkSat(S.PC, mkNot(c.e)) == UNSAT;
      retVal(S, CB, mkc(r, 32));
      return true;
    }
    if (N == "pv_ite_") {
      Val c = arg(0);
      if (c.w != 1)
        c = doICmp(CmpInst::ICMP_NE, c, mkc(0, c.w));
      retVal(S, CB, ite(c, arg(1), arg(2)));
      return true;
    }
    if (N == "pv_and_" || N == "pv_or_") {
      Val a = arg(0), b = arg(1);
      a = doICmp(CmpInst::ICMP_NE, a, mkc(0, a.w));
      b = doICmp(CmpInst::ICMP_NE, b, mkc(0, b.w));
      retVal(S, CB,
             doBin(N == "pv_and_" ? Instruction::And : Instruction::Or, a, b));
      return true;
    }
    if (N == "pv_havoc_") { // havoc bytes [p, p+n)
      if (!conc(0) || !conc(1))
        return true;
      uint64_t p = arg(0).c, n = arg(1).c;
      ObjP O = access(S, p, n, true);
      if (!O)
        return true;
      noteWrite(S, O, p, n);
      Obj &W = writable(S, O);
      uint64_t i = 0;
      while (i < n) {
        unsigned m = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1;
        Z3_ast e = freshAst("havoc", m * 8);
        storeBytes(W, p - W.base + i, mksraw(e, m * 8), m);
        i += m;
      }
      finishCall(S, CB);
      return true;
    }
    // --- loop cut: begin an arbitrary iteration. All writes to objects that
    // exist now must go to ranges allowed by pv_cut_allow_.
    if (N == "pv_cut_begin_") {
      Cut c;
      c.id = arg(0).c;
      c.frameDepth = S.St.size();
      c.heapMark = S.HeapP;
      c.stackMark = S.StackP;
      S.Cuts.push_back(c);
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_cut_allow_") {
      if (!conc(0) || !conc(1))
        return true;
      if (S.Cuts.empty())
        throw Abort{"pv_cut_allow without cut"};
      S.Cuts.back().allowed.push_back({arg(0).c, arg(1).c});
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_cut_end_") {
      if (!S.Cuts.empty())
        S.Cuts.pop_back();
      finishCall(S, CB);
      return true;
    }
    if (N == "pv_trace_") {
      string nm = readCStr(S, arg(0).c);
      Val v = arg(1);
      if (OptTrace)
        errs() << "[trace] " << nm << " = "
               << (v.k == 0 ? std::to_string(v.c)
                            : string(Z3_ast_to_string(C, v.e)))
               << "\n";
      finishCall(S, CB);
      return true;
    }
    return false;
  }
  return false;
}

static const char *NoopFns[] = {
    "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit",
    "puts", "printf", "fflush", "fprintf", "fputs", "fputc", "putchar",
    "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_guard_abort",
    "fwrite", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "atexit"};

static bool callExternal(State &S, CallBase *CB, Function *F) {
  StringRef N = F->getName();
  auto arg = [&](unsigned i) { return getV(S, CB->getArgOperand(i)); };
  auto conc = [&](unsigned i) -> bool {
    Val v = arg(i);
    if (v.k == 0)
      return true;
    concretize(S, CB->getArgOperand(i));
    return !S.Dead;
  };
  if (N == "malloc" || N == "_Znwm" || N == "_Znam" ||
      N == "_ZnwmRKSt9nothrow_t" || N == "_ZnamRKSt9nothrow_t") {
    if (!conc(0))
      return true;
    if (arg(0).c > (1ULL << 28)) {
      failHere(S, "huge allocation");
      return true;
    }
    retVal(S, CB, mkc(heapAlloc(S, arg(0).c), 64));
    return true;
  }
  if (N == "_ZnwmSt11align_val_t" || N == "_ZnamSt11align_val_t") {
    if (!conc(0) || !conc(1))
      return true;
    retVal(S, CB, mkc(heapAlloc(S, arg(0).c, arg(1).c), 64));
    return true;
  }
  if (N == "aligned_alloc") {
    if (!conc(0) || !conc(1))
      return true;
    retVal(S, CB, mkc(heapAlloc(S, arg(1).c, arg(0).c), 64));
    return true;
  }
  if (N == "calloc") {
    if (!conc(0) || !conc(1))
      return true;
    uint64_t n = arg(0).c * arg(1).c;
    uint64_t a = heapAlloc(S, n);
    auto O = S.Mem[a];
    O->k.assign(n, 0);
    retVal(S, CB, mkc(a, 64));
    return true;
  }
  if (N == "free" || startsWith(N, "_ZdlPv") || startsWith(N, "_ZdaPv")) {
    if (!conc(0))
      return true;
    uint64_t a = arg(0).c;
    if (a) {
      auto It = S.Mem.find(a);
      if (It == S.Mem.end() || It->second->kind != 1) {
        failHere(S, S.Freed.count(a) ? "double free" : "invalid free");
        return true;
      }
      S.Freed[a] = It->second->size;
      S.Mem.erase(It);
      S.LiveHeap--;
    }
    finishCall(S, CB);
    return true;
  }
  if (N == "realloc") {
    if (!conc(0) || !conc(1))
      return true;
    uint64_t a = arg(0).c, n = arg(1).c;
    uint64_t b = heapAlloc(S, n);
    if (a) {
      auto It = S.Mem.find(a);
      if (It == S.Mem.end()) {
        failHere(S, "realloc of invalid pointer");
        return true;
      }
      uint64_t m = std::min(n, It->second->size);
      copyMem(S, b, a, m);
      S.Freed[a] = S.Mem[a]->size;
      S.Mem.erase(a);
      S.LiveHeap--;
    }
    retVal(S, CB, mkc(b, 64));
    return true;
  }
  if (N == "memcpy" || N == "memmove") {
    if (!conc(0) || !conc(1) || !conc(2))
      return true;
    copyMem(S, arg(0).c, arg(1).c, arg(2).c);
    if (!S.Dead)
      retVal(S, CB, arg(0));
    return true;
  }
  if (N == "memset") {
    if (!conc(0) || !conc(2))
      return true;
    uint64_t d = arg(0).c, n = arg(2).c;
    if (n) {
      ObjP O = access(S, d, n, true);
      if (!O)
        return true;
      noteWrite(S, O, d, n);
      Obj &W = writable(S, O);
      Val b = doCast(Instruction::Trunc, arg(1), 8);
      for (uint64_t i = 0; i < n; ++i)
        storeBytes(W, d - W.base + i, b, 1);
    }
    retVal(S, CB, arg(0));
    return true;
  }
  if (N == "__cxa_guard_acquire") {
    if (!conc(0))
      return true;
    ObjP O = access(S, arg(0).c, 1, false);
    if (!O)
      return true;
    uint64_t off = arg(0).c - O->base;
    retVal(S, CB, mkc(O->b[off] == 0 ? 1 : 0, 32));
    return true;
  }
  if (N == "__cxa_guard_release") {
    if (!conc(0))
      return true;
    ObjP O = access(S, arg(0).c, 1, true);
    if (!O)
      return true;
    Obj &W = writable(S, O);
    storeBytes(W, arg(0).c - W.base, mkc(1, 8), 1);
    finishCall(S, CB);
    return true;
  }
  if (N == "__assert_fail" || N == "__assert_fail_base") {
    string e = readCStr(S, arg(0).c);
    failHere(S, "assert(" + e + ")");
    return true;
  }
  if (N == "abort" || N == "_ZSt9terminatev" || N == "__clang_call_terminate" ||
      N == "exit" || N == "_exit" || N == "__cxa_pure_virtual") {
    failHere(S, "reaches " + N.str());
    return true;
  }
  if (N == "__cxa_throw" || N == "__cxa_rethrow" ||
      startsWith(N, "_ZSt") && N.contains("__throw_")) {
    failHere(S, "exception thrown (" + demName(F) + ")");
    return true;
  }
  if (startsWith(N, "_ZN4llvm18report_fatal_error") ||
      startsWith(N, "_ZN4llvm22report_bad_alloc") ||
      startsWith(N, "_ZN4llvm25llvm_unreachable_internal")) {
    failHere(S, "llvm fatal error / unreachable reached");
    return true;
  }
  if (N == "__cxa_allocate_exception") {
    if (!conc(0))
      return true;
    retVal(S, CB, mkc(heapAlloc(S, arg(0).c), 64));
    return true;
  }
  for (auto *n : NoopFns)
    if (N == n) {
      retVal(S, CB,
             CB->getType()->isVoidTy() ? Val()
                                       : mkc(0, widthOf(CB->getType())));
      return true;
    }
  // output streams: printing has no effect on the verified state
  if (N.contains("raw_ostream") || N.contains("raw_fd_ostream") ||
      startsWith(N, "_ZNSo") || startsWith(N, "_ZStls") ||
      startsWith(N, "_ZN4llvm4errsEv") || startsWith(N, "_ZN4llvm4outsEv")) {
    Assumed.insert("stream output functions do not modify the verified state");
    if (CB->getType()->isPointerTy() && CB->arg_size() > 0)
      retVal(S, CB, arg(0));
    else
      retVal(S, CB,
             CB->getType()->isVoidTy() ? Val()
                                       : mkc(0, widthOf(CB->getType())));
    return true;
  }
  return false;
}

static void endContract(State &S) {
  ++NDone;
  S.Dead = true;
}
static void doCall(State &S, CallBase *CB) {
  Value *Callee = CB->getCalledOperand()->stripPointerCasts();
  Function *F = dyn_cast<Function>(Callee);
  if (!F) {
    if (auto *GA = dyn_cast<GlobalAlias>(Callee))
      F = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
  }
  if (!F) {
    if (isa<InlineAsm>(Callee)) {
      // compiler barriers only
      if (cast<InlineAsm>(Callee)->getAsmString().empty()) {
        retVal(S, CB, defaultRet(CB));
        return;
      }
      throw Abort{"inline asm"};
    }
    Val v = getV(S, CB->getCalledOperand());
    if (v.k) {
      concretize(S, CB->getCalledOperand());
      if (S.Dead)
        return;
      v = getV(S, CB->getCalledOperand());
    }
    auto It = AddrF.find(v.c);
    if (It == AddrF.end()) {
      failHere(S, v.c < 4096 ? "call through null function pointer"
                             : "call through invalid function pointer");
      return;
    }
    F = It->second;
  }
  // llvm.dbg etc & verifier intrinsics
  auto R = S.Repl.find(F);
  if (R != S.Repl.end())
    F = R->second;
  if (F->isDeclaration() || F->isIntrinsic() ||
      startsWith(F->getName(), "pv_")) {
    if (callBuiltin(S, CB, F))
      return;
    if (callExternal(S, CB, F))
      return;
    throw Abort{"call of external function " + demName(F)};
  }
  vector<Val> args;
  for (auto &A : CB->args())
    args.push_back(getV(S, A.get()));
  pushFrame(S, F, args, CB);
}

static void branchOn(State &S, const Val &c, BasicBlock *T, BasicBlock *E) {
  Res rt = checkSat(S.PC, c.e);
  if (rt == UNSAT) {
    enterBlock(S, E);
    return;
  }
  Z3_ast nc = mkNot(c.e);
  Res rf = checkSat(S.PC, nc);
  if (rf == UNSAT) {
    enterBlock(S, T);
    return;
  }
  auto N = cloneS(S);
  N->PC.push_back(nc);
  enterBlock(*N, E);
  Work.push_back(std::move(N));
  S.PC.push_back(c.e);
  enterBlock(S, T);
}

static void doGEP(State &S, GetElementPtrInst *G) {
  Val b = getV(S, G->getPointerOperand());
  if (b.k == 2)
    throw Abort{"vector gep"};
  uint64_t off = 0;
  Val dyn = mkc(0, 64);
  for (gep_type_iterator It = gep_type_begin(G), E = gep_type_end(G); It != E;
       ++It) {
    if (StructType *ST = It.getStructTypeOrNull()) {
      off += DL->getStructLayout(ST)->getElementOffset(
          cast<ConstantInt>(It.getOperand())->getZExtValue());
      continue;
    }
    uint64_t es = DL->getTypeAllocSize(It.getIndexedType());
    Val i = getV(S, It.getOperand());
    if (i.w < 64)
      i = doCast(Instruction::SExt, i, 64);
    else if (i.w > 64)
      i = doCast(Instruction::Trunc, i, 64);
    if (i.k == 0)
      off += i.c * es;
    else
      dyn = doBin(Instruction::Add, dyn,
                  doBin(Instruction::Mul, i, mkc(es, 64)));
  }
  setV(S, G, doBin(Instruction::Add, doBin(Instruction::Add, b, dyn),
                   mkc(off, 64)));
  ++S.St.back().It;
}

static void step(State &S) {
  Frame &F = S.St.back();
  Instruction *I = &*F.It;
  ++S.NInst;
  ++TotInst;
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *A = cast<AllocaInst>(I);
    uint64_t n = DL->getTypeAllocSize(A->getAllocatedType());
    Val c = getV(S, A->getArraySize());
    if (c.k)
      throw Abort{"symbolic alloca"};
    n *= c.c;
    S.StackP = (S.StackP - n - 32) & ~15ULL;
    if (A->getAlign().value() > 16)
      S.StackP &= ~(A->getAlign().value() - 1);
    newObj(S, S.StackP, n, 2, A->getName().str());
    S.St.back().Allocas.push_back(S.StackP);
    setV(S, I, mkc(S.StackP, 64));
    ++F.It;
    return;
  }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(I);
    Val p = getV(S, L->getPointerOperand());
    Type *T = L->getType();
    uint64_t n = DL->getTypeStoreSize(T);
    if (p.k == 0) {
      ObjP O = access(S, p.c, n, false);
      if (!O)
        return;
      Val v = loadT(S, O, p.c - O->base, T);
      setV(S, I, v);
      ++F.It;
      return;
    }
    ObjP O = resolveSym(S, p, n);
    if (!O)
      return;
    auto vals = enumVals(S, p.e, 600);
    if (vals.empty()) {
      S.Dead = true;
      return;
    }
    if (T->isPointerTy() && vals.size() <= 64 && vals.size() > 1) {
      concretize(S, L->getPointerOperand());
      return;
    }
    std::sort(vals.begin(), vals.end());
    Val r;
    bool first = true;
    for (auto x : vals) {
      Val v = loadT(S, O, x - O->base, T);
      if (first)
        r = v;
      else
        r = ite(mkEqU(p, x), v, r);
      first = false;
    }
    setV(S, I, r);
    ++F.It;
    return;
  }
  case Instruction::Store: {
    auto *St = cast<StoreInst>(I);
    Val p = getV(S, St->getPointerOperand());
    Val v = getV(S, St->getValueOperand());
    Type *T = St->getValueOperand()->getType();
    uint64_t n = DL->getTypeStoreSize(T);
    if (p.k) {
      ObjP O = resolveSym(S, p, n);
      if (!O)
        return;
      concretize(S, St->getPointerOperand());
      return;
    }
    ObjP O = access(S, p.c, n, true);
    if (!O)
      return;
    noteWrite(S, O, p.c, n);
    Obj &W = writable(S, O);
    storeT(W, p.c - W.base, v, T);
    ++S.St.back().It;
    return;
  }
  case Instruction::GetElementPtr:
    doGEP(S, cast<GetElementPtrInst>(I));
    return;
  case Instruction::Br: {
    auto *B = cast<BranchInst>(I);
    if (B->isUnconditional()) {
      enterBlock(S, B->getSuccessor(0));
      return;
    }
    Val c = getV(S, B->getCondition());
    if (c.k == 0)
      enterBlock(S, B->getSuccessor(c.c ? 0 : 1));
    else
      branchOn(S, c, B->getSuccessor(0), B->getSuccessor(1));
    return;
  }
  case Instruction::Switch: {
    auto *W = cast<SwitchInst>(I);
    Val c = getV(S, W->getCondition());
    if (c.k == 0) {
      for (auto &K : W->cases())
        if (K.getCaseValue()->getZExtValue() == c.c) {
          enterBlock(S, K.getCaseSuccessor());
          return;
        }
      enterBlock(S, W->getDefaultDest());
      return;
    }
    Z3_ast none = Z3_mk_true(C);
    vector<std::pair<Z3_ast, BasicBlock *>> opts;
    map<BasicBlock *, Z3_ast> byDest;
    vector<BasicBlock *> order;
    for (auto &K : W->cases()) {
      Val eq = mkEqU(c, K.getCaseValue()->getZExtValue());
      Z3_ast e = toAst(eq);
      Z3_ast ar[2] = {none, mkNot(e)};
      none = Z3_mk_and(C, 2, ar);
      auto *D = K.getCaseSuccessor();
      if (!byDest.count(D)) {
        byDest[D] = e;
        order.push_back(D);
      } else {
        Z3_ast o[2] = {byDest[D], e};
        byDest[D] = Z3_mk_or(C, 2, o);
      }
    }
    {
      auto *D = W->getDefaultDest();
      if (!byDest.count(D)) {
        byDest[D] = none;
        order.push_back(D);
      } else {
        Z3_ast o[2] = {byDest[D], none};
        byDest[D] = Z3_mk_or(C, 2, o);
      }
    }
    vector<BasicBlock *> feas;
    for (auto *D : order)
      if (checkSat(S.PC, byDest[D]) != UNSAT)
        feas.push_back(D);
    if (feas.empty()) {
      S.Dead = true;
      return;
    }
    for (size_t i = 1; i < feas.size(); ++i) {
      auto N = cloneS(S);
      N->PC.push_back(Z3_simplify(C, byDest[feas[i]]));
      enterBlock(*N, feas[i]);
      Work.push_back(std::move(N));
    }
    if (feas.size() > 1)
      S.PC.push_back(Z3_simplify(C, byDest[feas[0]]));
    enterBlock(S, feas[0]);
    return;
  }
  case Instruction::Ret: {
    auto *R = cast<ReturnInst>(I);
    Val v;
    if (R->getReturnValue())
      v = getV(S, R->getReturnValue());
    for (auto a : F.Allocas) {
      S.Mem.erase(a);
    }
    CallBase *CS = F.CS;
    S.St.pop_back();
    if (S.St.empty()) {
      endContract(S);
      return;
    }
    if (!CS->getType()->isVoidTy()) {
      if (v.k != 2 && v.w != widthOf(CS->getType()))
        v = v.w == 0 ? undefOf(CS->getType())
                     : doCast(v.w < widthOf(CS->getType()) ? Instruction::ZExt
                                                           : Instruction::Trunc,
                              v, widthOf(CS->getType()));
      setV(S, CS, v);
    }
    finishCall(S, CS);
    return;
  }
  case Instruction::Call:
  case Instruction::Invoke:
    doCall(S, cast<CallBase>(I));
    return;
  case Instruction::Unreachable:
    failHere(S, "unreachable code reached");
    return;
  case Instruction::ICmp: {
    auto *X = cast<ICmpInst>(I);
    setV(S, I,
         doICmp(X->getPredicate(), getV(S, X->getOperand(0)),
                getV(S, X->getOperand(1))));
    ++F.It;
    return;
  }
  case Instruction::FCmp: {
    auto *X = cast<FCmpInst>(I);
    setV(S, I,
         doFCmp(X->getPredicate(), getV(S, X->getOperand(0)),
                getV(S, X->getOperand(1))));
    ++F.It;
    return;
  }
  case Instruction::FNeg: {
    Val a = getV(S, I->getOperand(0));
    setV(S, I, doBin(Instruction::Xor, a, mkc(1ULL << (a.w - 1), a.w)));
    ++F.It;
    return;
  }
  case Instruction::Select: {
    Val c = getV(S, I->getOperand(0));
    if (c.k == 0) {
      setV(S, I, getV(S, I->getOperand(c.c ? 1 : 2)));
      ++F.It;
      return;
    }
    Val a = getV(S, I->getOperand(1)), b = getV(S, I->getOperand(2));
    if (I->getType()->isPointerTy() && !(a.k == 0 && b.k == 0 && a.c == b.c)) {
      // fork
      Res rt = checkSat(S.PC, c.e);
      Res rf = rt == UNSAT ? SAT : checkSat(S.PC, mkNot(c.e));
      if (rt != UNSAT && rf != UNSAT) {
        auto N = cloneS(S);
        N->PC.push_back(mkNot(c.e));
        setV(*N, I, b);
        ++N->St.back().It;
        Work.push_back(std::move(N));
        S.PC.push_back(c.e);
        setV(S, I, a);
      } else
        setV(S, I, rt == UNSAT ? b : a);
      ++S.St.back().It;
      return;
    }
    setV(S, I, ite(c, a, b));
    ++F.It;
    return;
  }
  case Instruction::PHI:
    throw Abort{"stray phi"};
  case Instruction::ExtractValue: {
    auto *X = cast<ExtractValueInst>(I);
    Val v = getV(S, X->getAggregateOperand());
    for (unsigned i : X->indices())
      v = (*v.a)[i];
    setV(S, I, v);
    ++F.It;
    return;
  }
  case Instruction::InsertValue: {
    auto *X = cast<InsertValueInst>(I);
    Val v = getV(S, X->getAggregateOperand());
    Val n = getV(S, X->getInsertedValueOperand());
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &a,
                                                        unsigned d) -> Val {
      if (d == X->getNumIndices())
        return n;
      vector<Val> c = *a.a;
      c[X->getIndices()[d]] = ins(c[X->getIndices()[d]], d + 1);
      return mkAgg(c);
    };
    setV(S, I, ins(v, 0));
    ++F.It;
    return;
  }
  case Instruction::Freeze:
    setV(S, I, getV(S, I->getOperand(0)));
    ++F.It;
    return;
  case Instruction::AtomicRMW: {
    auto *A = cast<AtomicRMWInst>(I);
    Val p = getV(S, A->getPointerOperand());
    if (p.k) {
      concretize(S, A->getPointerOperand());
      return;
    }
    Type *T = A->getValOperand()->getType();
    ObjP O = access(S, p.c, DL->getTypeStoreSize(T), true);
    if (!O)
      return;
    Val old = loadT(S, O, p.c - O->base, T), v = getV(S, A->getValOperand()), r;
    switch (A->getOperation()) {
    case AtomicRMWInst::Xchg:
      r = v;
      break;
    case AtomicRMWInst::Add:
      r = doBin(Instruction::Add, old, v);
      break;
    case AtomicRMWInst::Sub:
      r = doBin(Instruction::Sub, old, v);
      break;
    case AtomicRMWInst::And:
      r = doBin(Instruction::And, old, v);
      break;
    case AtomicRMWInst::Or:
      r = doBin(Instruction::Or, old, v);
      break;
    default:
      throw Abort{"atomicrmw"};
    }
    noteWrite(S, O, p.c, DL->getTypeStoreSize(T));
    Obj &W = writable(S, O);
    storeT(W, p.c - W.base, r, T);
    setV(S, I, old);
    ++S.St.back().It;
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *A = cast<AtomicCmpXchgInst>(I);
    Val p = getV(S, A->getPointerOperand());
    Type *T = A->getCompareOperand()->getType();
    if (p.k) {
      concretize(S, A->getPointerOperand());
      return;
    }
    ObjP O = access(S, p.c, DL->getTypeStoreSize(T), true);
    if (!O)
      return;
    Val old = loadT(S, O, p.c - O->base, T);
    Val eq = doICmp(CmpInst::ICMP_EQ, old, getV(S, A->getCompareOperand()));
    noteWrite(S, O, p.c, DL->getTypeStoreSize(T));
    Obj &W = writable(S, O);
    storeT(W, p.c - W.base, ite(eq, getV(S, A->getNewValOperand()), old), T);
    setV(S, I, mkAgg({old, eq}));
    ++S.St.back().It;
    return;
  }
  case Instruction::Fence:
    ++F.It;
    return;
  case Instruction::ExtractElement: {
    Val v = getV(S, I->getOperand(0)), i = getV(S, I->getOperand(1));
    if (i.k)
      throw Abort{"extractelement"};
    setV(S, I, (*v.a)[i.c]);
    ++F.It;
    return;
  }
  case Instruction::InsertElement: {
    Val v = getV(S, I->getOperand(0)), i = getV(S, I->getOperand(2));
    if (i.k)
      throw Abort{"insertelement"};
    vector<Val> c = *v.a;
    c[i.c] = getV(S, I->getOperand(1));
    setV(S, I, mkAgg(c));
    ++F.It;
    return;
  }
  case Instruction::SDiv:
  case Instruction::UDiv:
  case Instruction::SRem:
  case Instruction::URem: {
    Val a = getV(S, I->getOperand(0)), b = getV(S, I->getOperand(1));
    oblige(S, doICmp(CmpInst::ICMP_NE, b, mkc(0, b.w)), "division by zero");
    if (S.Dead)
      return;
    if (I->getOpcode() == Instruction::SDiv ||
        I->getOpcode() == Instruction::SRem) {
      Val mn = doICmp(CmpInst::ICMP_EQ, a, mkc(1ULL << (a.w - 1), a.w));
      Val m1 = doICmp(CmpInst::ICMP_EQ, b, mkc(~0ULL, b.w));
      Val bad = doBin(Instruction::And, mn, m1);
      oblige(S, doBin(Instruction::Xor, bad, mkc(1, 1)),
             "signed division overflow");
      if (S.Dead)
        return;
    }
    setV(S, I, doBin(I->getOpcode(), a, b));
    ++S.St.back().It;
    return;
  }
  default:
    if (I->isBinaryOp()) {
      setV(S, I,
           doBin(I->getOpcode(), getV(S, I->getOperand(0)),
                 getV(S, I->getOperand(1))));
      ++F.It;
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      setV(S, I,
           doCast(CI->getOpcode(), getV(S, CI->getOperand(0)),
                  widthOf(CI->getType())));
      ++F.It;
      return;
    }
    throw Abort{string("instruction ") + I->getOpcodeName()};
  }
}

static void run(StateP Init) {
  Work.clear();
  Work.push_back(std::move(Init));
  while (!Work.empty()) {
    StateP S = std::move(Work.back());
    Work.pop_back();
    ++NPaths;
    if (NPaths > MaxPaths) {
      Undecided.insert("path limit reached");
      return;
    }
    try {
      unsigned t = 0;
      while (!S->Dead) {
        step(*S);
        if ((++t & 0x3ff) == 0 && now() > Deadline) {
          Undecided.insert("time limit reached in " + stackOf(*S).substr(0, 300));
          return;
        }
        if (S->NInst > MaxInst)
          throw Abort{"instruction limit"};
      }
    } catch (Abort &A) {
      string w = A.why;
      if (OptTrace)
        errs() << "[abort] " << w << "\n" << stackOf(*S) << "\n";
      Undecided.insert(w + " | " + stackOf(*S).substr(0, 600));
    }
    if (Viols.size() >= 12)
      return;
  }
}

static void layoutGlobals() {
  uint64_t a = 0x10000000;
  for (auto &F : *Mod) {
    GAddr[&F] = a;
    AddrF[a] = &F;
    a += 16;
  }
  a = 0x40000000;
  for (auto &G : Mod->globals()) {
    uint64_t sz = G.getValueType()->isSized()
                      ? (uint64_t)DL->getTypeAllocSize(G.getValueType())
                      : 64;
    if (sz < 64)
      sz = 64;
    uint64_t al = G.getAlign() ? G.getAlign()->value() : 16;
    if (al < 16)
      al = 16;
    a = (a + al - 1) / al * al;
    GAddr[&G] = a;
    AddrG[a] = &G;
    a += sz + 32;
  }
}

static json::Array toArr(const set<string> &s) {
  json::Array a;
  for (auto &x : s)
    a.push_back(x);
  return a;
}

int main(int argc, char **argv) {
  string in, out = "-";
  vector<string> contracts;
  double tmo = 300;
  bool list = false, opt = true;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "-o")
      out = argv[++i];
    else if (a == "-t")
      tmo = atof(argv[++i]);
    else if (a == "-q")
      QTimeoutMs = atoi(argv[++i]);
    else if (a == "--trace")
      OptTrace = true;
    else if (a == "--list")
      list = true;
    else if (a == "--no-opt")
      opt = false;
    else if (a == "-c")
      contracts.push_back(argv[++i]);
    else
      in = a;
  }
  SMDiagnostic Err;
  Mod = parseIRFile(in, Err, Ctx);
  if (!Mod) {
    Err.print("pvc", errs());
    return 2;
  }
  DL = &Mod->getDataLayout();
  if (list) {
    for (auto &F : *Mod)
      if (!F.isDeclaration() && F.getName().startswith("pvc_"))
        outs() << F.getName().substr(4) << "\n";
    return 0;
  }
  if (opt) {
    legacy::PassManager PM;
    PM.add(createPromoteMemoryToRegisterPass());
    PM.add(createInstSimplifyLegacyPass());
    PM.run(*Mod);
  }
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) {
    errs() << "z3 error: " << Z3_get_error_msg(c, e) << "\n";
    abort();
  });
  Slv = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, Slv);
  {
    Z3_params P = Z3_mk_params(C);
    Z3_params_inc_ref(C, P);
    Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"),
                       std::min(QTimeoutMs, 300u));
    Z3_solver_set_params(C, Slv, P);
  }
  layoutGlobals();
  // global constructors
  StateP Base = std::make_unique<State>();
  Deadline = now() + 60;
  if (auto *GC = Mod->getGlobalVariable("llvm.global_ctors"))
    if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
      for (auto &Op : CA->operands()) {
        auto *F = dyn_cast<Function>(
            cast<ConstantStruct>(Op)->getOperand(1)->stripPointerCasts());
        if (!F || F->isDeclaration())
          continue;
        // run to completion, deterministic
        StateP S = std::make_unique<State>(*Base);
        pushFrame(*S, F, {}, nullptr);
        try {
          while (!S->Dead)
            step(*S);
          if (S->St.empty()) {
            S->Dead = false;
            Base = std::move(S);
          }
        } catch (Abort &A) {
          if (OptTrace)
            errs() << "[ctor] " << F->getName() << ": " << A.why << "\n"
                   << stackOf(*S);
          Assumed.insert("static initialiser not executed: " +
                         demName(F) + ": " + A.why.substr(0, 100));
        }
      }
  Work.clear();
  NDone = 0;
  Executed.clear();
  Viols.clear();
  Sites.clear();
  json::Array Results;
  for (auto &cn : contracts) {
    CurContract = cn;
    Sites.clear();
    Viols.clear();
    Undecided.clear();
    Covers.clear();
    CoverWanted.clear();
    Executed.clear();
    Replaced.clear();
    Bounded.clear();
    LoopInvs.clear();
    NPaths = NDone = NKilled = NForks = NQueries = 0;
    NOneShot = NExternal = 0;
    SolverT = 0;
    TotInst = 0;
    double t0 = now();
    Deadline = t0 + tmo;
    Function *F = Mod->getFunction("pvc_" + cn);
    if (!F || F->isDeclaration()) {
      Results.push_back(json::Object{{"contract", cn}, {"status", "missing"}});
      continue;
    }
    auto S = std::make_unique<State>(*Base);
    pushFrame(*S, F, {}, nullptr);
    run(std::move(S));
    uint64_t vcs = 0, simp = 0, z3n = 0, failed = 0, unk = 0;
    json::Array sites;
    for (auto &p : Sites) {
      auto &s = p.second;
      vcs += s.vcs;
      simp += s.simp;
      z3n += s.z3;
      failed += s.failed;
      unk += s.unknown;
      sites.push_back(json::Object{{"label", s.label},
                                   {"loc", s.loc},
                                   {"vcs", (int64_t)s.vcs},
                                   {"simp", (int64_t)s.simp},
                                   {"z3", (int64_t)s.z3},
                                   {"failed", (int64_t)s.failed},
                                   {"unknown", (int64_t)s.unknown}});
    }
    json::Array viols;
    for (auto &v : Viols) {
      json::Array tr;
      for (auto &x : v.trace)
        tr.push_back(x);
      viols.push_back(json::Object{{"label", v.label},
                                   {"loc", v.loc},
                                   {"stack", v.stack},
                                   {"inputs", v.inputs},
                                   {"ufs", v.ufs}});
    }
    json::Array cov, missing;
    for (auto &c : Covers)
      cov.push_back(c.first);
    for (auto &c : CoverWanted)
      if (!Covers.count(c))
        missing.push_back(c);
    set<string> ex;
    for (auto *F : Executed)
      if (auto *SP = F->getSubprogram()) {
        string f = SP->getFilename().str();
        if (!f.empty() && f[0] != '/')
          f = SP->getDirectory().str() + "/" + f;
        if (f.find("/repo/") != string::npos)
          ex.insert(f.substr(f.find("/repo/") + 6) + ": " +
                    demName(F).substr(0, 200));
      }
    string status;
    if (!Viols.empty())
      status = "violated";
    else if (!Undecided.empty())
      status = "undecided";
    else if (NDone == 0 || !missing.empty() || vcs == 0)
      status = "vacuous";
    else if (!Bounded.empty())
      status = "bounded";
    else
      status = "proved";
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    Results.push_back(json::Object{
        {"contract", cn},
        {"status", status},
        {"vcs", (int64_t)vcs},
        {"simp", (int64_t)simp},
        {"z3", (int64_t)z3n},
        {"failed", (int64_t)failed},
        {"unknown", (int64_t)unk},
        {"paths", (int64_t)NPaths},
        {"completed", (int64_t)NDone},
        {"queries", (int64_t)NQueries},
        {"oneshot", (int64_t)NOneShot},
        {"external_solver", (int64_t)NExternal},
        {"solver_s", SolverT},
        {"wall_s", now() - t0},
        {"insts", (int64_t)TotInst},
        {"maxrss_mb", (int64_t)ru.ru_maxrss / 1024},
        {"sites", std::move(sites)},
        {"violations", std::move(viols)},
        {"undecided", toArr(Undecided)},
        {"covers", std::move(cov)},
        {"missing_covers", std::move(missing)},
        {"functions", toArr(ex)},
        {"replaced", toArr(Replaced)},
        {"assumed", toArr(Assumed)},
        {"bounded", toArr(Bounded)},
        {"invariants", toArr(LoopInvs)}});
    Pushed.clear();
    Z3_solver_reset(C, Slv);
  }
  string s;
  raw_string_ostream os(s);
  os << formatv("{0:2}", json::Value(std::move(Results))) << "\n";
  os.flush();
  if (out == "-")
    outs() << s, outs().flush();
  else {
    FILE *f = fopen(out.c_str(), "w");
    fputs(s.c_str(), f);
    fclose(f);
  }
  _exit(0);
}
