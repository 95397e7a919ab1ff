// Contracts: the shipped type-state automata
// (lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/*.cpp)
//
// Each automaton is specified as a transition relation over its API tokens,
// independently of the encoding as a table.
#include "pv/llvmir.h"
#include "pv/pv.h"

#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFCTXDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureHeapDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureMemoryDescription.h"

using namespace psr;

namespace {
/// An API function: its name, the parameter it consumes (-1: it is a factory).
struct Api {
  const char *Name;
  int Param;
};
alignas(16) char Scratch[64];

template <typename D, size_t N>
const Api &anyApi(const D &Desc, const Api (&T)[N]) {
  const Api &A = T[pv::choose(N, "api")];
  pv::ensures(Desc.isAPIFunction(A.Name), "every listed function is an API function");
  bool Fac = A.Param < 0;
  pv::ensures(Desc.isFactoryFunction(A.Name) == Fac,
              "exactly the functions that return the object are factories");
  pv::ensures(Desc.isConsumingFunction(A.Name) == !Fac,
              "exactly the functions that take the object are consuming");
  auto CP = Desc.getConsumerParamIdx(A.Name);
  auto FP = Desc.getFactoryParamIdx(A.Name);
  if (Fac) {
    pv::ensures(CP.empty(), "a factory consumes nothing");
    pv::ensures(FP.size() == 1 && *FP.begin() == -1,
                "a factory generates its return value");
  } else {
    pv::ensures(FP.empty(), "a consuming function generates nothing");
    pv::ensures(CP.size() == 1 && *CP.begin() == A.Param,
                "a consuming function consumes the documented parameter");
  }
  return A;
}
bool is(const Api &A, const char *N) { return llvm::StringRef(A.Name) == N; }

/// Names close to API names that are none.
const char *const NonApi[] = {"", "f", "fopenx", "fope", "malloc", "free",
                              "EVP_KDF", "EVP_KDF_CTX", "CRYPTO_secure",
                              "CRYPTO_mallo", "CRYPTO_secure_mallocx", "fcloses"};
template <typename D> void nonApi(const D &Desc) {
  const char *F = NonApi[pv::choose(sizeof(NonApi) / sizeof(*NonApi), "name")];
  pv::ensures(!Desc.isAPIFunction(F), "other functions are no API functions");
  pv::ensures(!Desc.isFactoryFunction(F), "other functions are no factories");
  pv::ensures(!Desc.isConsumingFunction(F), "other functions consume nothing");
  pv::ensures(Desc.getConsumerParamIdx(F).empty(), "other functions consume nothing");
  pv::ensures(Desc.getFactoryParamIdx(F).empty(), "other functions generate nothing");
}
template <typename D> void specials(const D &Desc) {
  pv::ensures(Desc.top() != Desc.bottom(), "no information differs from all information");
  pv::ensures(Desc.error() != Desc.top() && Desc.error() != Desc.uninit(),
              "the error state is distinguished");
}
} // namespace

// ---- C standard file I/O --------------------------------------------------
namespace {
const Api FileIO[] = {
    {"fopen", -1},    {"fdopen", -1},   {"fclose", 0},    {"fread", 3},
    {"fwrite", 3},    {"fgetc", 0},     {"fgetwc", 0},    {"fgets", 2},
    {"getc", 0},      {"getwc", 0},     {"_IO_getc", 0},  {"ungetc", 1},
    {"ungetwc", 1},   {"fputc", 1},     {"fputwc", 1},    {"fputs", 1},
    {"putc", 1},      {"putwc", 1},     {"_IO_putc", 1},  {"fprintf", 0},
    {"fwprintf", 0},  {"vfprintf", 0},  {"vfwprintf", 0}, {"__isoc99_fscanf", 0},
    {"fscanf", 0},    {"fwscanf", 0},   {"vfscanf", 0},   {"vfwscanf", 0},
    {"fflush", 0},    {"fseek", 0},     {"ftell", 0},     {"rewind", 0},
    {"fgetpos", 0},   {"fsetpos", 0},   {"fileno", 0}};
using FS = CSTDFILEIOState;
const FS FStates[] = {FS::UNINIT, FS::OPENED, FS::CLOSED, FS::ERROR, FS::BOT};
} // namespace
PVC_CONTRACT(file_io_transitions) {
  CSTDFILEIOTypeStateDescription D;
  const Api &A = anyApi(D, FileIO);
  FS S = FStates[pv::choose(5, "state")];
  FS Want;
  if (is(A, "fopen") || is(A, "fdopen"))
    Want = S == FS::ERROR ? FS::ERROR : FS::OPENED;
  else if (S == FS::BOT)
    Want = FS::BOT;
  else if (S != FS::OPENED)
    Want = FS::ERROR; // use of a file that is not open
  else
    Want = is(A, "fclose") ? FS::CLOSED : FS::OPENED;
  pv::ensures(D.getNextState(A.Name, S) == Want,
              "file I/O: opened by fopen/fdopen, closed by fclose, used only "
              "while open");
  pv::ensures(D.getNextState(A.Name, S, nullptr) == Want,
              "file I/O: the call site makes no difference");
}
PVC_CONTRACT(file_io_other) {
  CSTDFILEIOTypeStateDescription D;
  nonApi(D);
  specials(D);
  pv::ensures(D.uninit() == FS::UNINIT && D.start() == FS::OPENED &&
                  D.error() == FS::ERROR && D.bottom() == FS::BOT && D.top() == FS::TOP,
              "special states");
}

// ---- OpenSSL EVP_KDF ------------------------------------------------------
namespace {
const Api Kdf[] = {{"EVP_KDF_fetch", -1}, {"EVP_KDF_free", 0}};
using KS = OpenSSLEVPKDFState;
const KS KStates[] = {KS::UNINIT, KS::KDF_FETCHED, KS::ERROR, KS::BOT};
const Api KdfCtx[] = {{"EVP_KDF_CTX_new", -1},
                      {"EVP_KDF_CTX_set_params", 0},
                      {"EVP_KDF_derive", 0},
                      {"EVP_KDF_CTX_free", 0}};
using CS = OpenSSLEVPKDFCTXState;
const CS CStates[] = {CS::UNINIT, CS::CTX_ATTACHED, CS::PARAM_INIT,
                      CS::DERIVED, CS::ERROR, CS::BOT};
} // namespace
PVC_CONTRACT(kdf_transitions) {
  OpenSSLEVPKDFDescription D;
  const Api &A = anyApi(D, Kdf);
  KS S = KStates[pv::choose(4, "state")];
  KS Want;
  if (is(A, "EVP_KDF_fetch"))
    Want = S == KS::UNINIT || S == KS::BOT ? KS::KDF_FETCHED : KS::ERROR;
  else
    Want = S == KS::KDF_FETCHED ? KS::UNINIT : S == KS::BOT ? KS::BOT : KS::ERROR;
  pv::ensures(D.getNextState(A.Name, S) == Want, "EVP_KDF automaton");
}
PVC_CONTRACT(kdf_other) {
  OpenSSLEVPKDFDescription D;
  nonApi(D);
  specials(D);
  pv::ensures(D.uninit() == KS::UNINIT && D.error() == KS::ERROR &&
                  D.bottom() == KS::BOT && D.top() == KS::TOP &&
                  D.start() == KS::KDF_FETCHED,
              "special states");
}
namespace {
CS kdfCtxSpec(const Api &A, CS S) {
  if (is(A, "EVP_KDF_CTX_new"))
    return S == CS::ERROR ? CS::ERROR : CS::CTX_ATTACHED;
  bool Live = S == CS::CTX_ATTACHED || S == CS::PARAM_INIT || S == CS::DERIVED;
  if (!Live)
    return CS::ERROR;
  if (is(A, "EVP_KDF_CTX_set_params"))
    return CS::PARAM_INIT;
  if (is(A, "EVP_KDF_CTX_free"))
    return CS::UNINIT;
  // derive requires parameters
  return S == CS::CTX_ATTACHED ? CS::ERROR : CS::DERIVED;
}
using KdfSolver =
    IDESolver<IDETypeStateAnalysisDomain<OpenSSLEVPKDFDescription>>;
KS KdfResult;
const llvm::Instruction *KdfAsked;
const llvm::Value *KdfFact;
KS fakeResultAt(void *, const llvm::Instruction *I, const llvm::Value *V) {
  KdfAsked = I;
  KdfFact = V;
  return KdfResult;
}
} // namespace
PVC_CONTRACT(kdf_ctx_transitions) {
  OpenSSLEVPKDFCTXDescription D(*reinterpret_cast<KdfSolver *>(Scratch));
  const Api &A = anyApi(D, KdfCtx);
  CS S = CStates[pv::choose(6, "state")];
  CS Want = kdfCtxSpec(A, S);
  pv::ensures(D.getNextState(A.Name, S) == Want, "EVP_KDF_CTX automaton");
}
PVC_CONTRACT(kdf_ctx_transitions_at_call) {
  pv::replace(&KdfSolver::resultAt, &fakeResultAt);
  pv_note_assumption_("the EVP_KDF results are an arbitrary map");
  KdfResult = KStates[pv::choose(4, "kdf")];
  pv::ir::World W;
  OpenSSLEVPKDFCTXDescription D(*reinterpret_cast<KdfSolver *>(Scratch));
  const Api &A = anyApi(D, KdfCtx);
  llvm::Type *Ps[2] = {W.ptrTy(W.intTy(8)), W.intTy(32)};
  auto *FT = W.fnTy(Ps[0], Ps, 2);
  llvm::Value *Args[2] = {W.arg(Ps[0]), W.arg(Ps[1])};
  auto *Call = W.call(FT, W.func(FT), Args, 2);
  CS S = CStates[pv::choose(6, "state")];
  CS Want = kdfCtxSpec(A, S);
  if (is(A, "EVP_KDF_CTX_new") && KdfResult != KS::KDF_FETCHED)
    Want = CS::ERROR;
  KdfAsked = nullptr;
  pv::ensures(D.getNextState(A.Name, S, Call) == Want,
              "EVP_KDF_CTX automaton: a context needs a fetched KDF");
  if (is(A, "EVP_KDF_CTX_new"))
    pv::ensures(KdfAsked == Call && KdfFact == Args[0],
                "the state of the KDF passed at this call is what counts");
}
PVC_CONTRACT(kdf_ctx_other) {
  OpenSSLEVPKDFCTXDescription D(*reinterpret_cast<KdfSolver *>(Scratch));
  nonApi(D);
  specials(D);
  pv::ensures(D.uninit() == CS::UNINIT && D.error() == CS::ERROR &&
                  D.bottom() == CS::BOT && D.top() == CS::TOP,
              "special states");
}

// ---- OpenSSL secure heap --------------------------------------------------
namespace {
const Api Heap[] = {{"CRYPTO_secure_malloc", -1},
                    {"CRYPTO_secure_zalloc", -1},
                    {"CRYPTO_secure_free", 0},
                    {"CRYPTO_secure_clear_free", 0}};
using HS = OpenSSLSecureHeapState;
const HS HStates[] = {HS::BOT,    HS::UNINIT, HS::ALLOCATED,
                      HS::ZEROED, HS::FREED,  HS::ERROR};
HS heapSpec(const Api &A, HS S) {
  if (is(A, "CRYPTO_secure_malloc"))
    return HS::ALLOCATED;
  if (is(A, "CRYPTO_secure_zalloc"))
    return HS::ZEROED;
  if (is(A, "CRYPTO_secure_free")) // only zeroed memory may be freed as is
    return S == HS::ZEROED ? HS::FREED : HS::ERROR;
  return S == HS::ZEROED || S == HS::ALLOCATED ? HS::FREED : HS::ERROR;
}
using HeapSolver = IDESolver<IDESecureHeapPropagationAnalysisDomain>;
SecureHeapValue HeapResult;
const llvm::Instruction *HeapAsked;
SecureHeapFact HeapFact;
SecureHeapValue fakeHeapAt(void *, const llvm::Instruction *I,
                           SecureHeapFact F) {
  HeapAsked = I;
  HeapFact = F;
  return HeapResult;
}
} // namespace
PVC_CONTRACT(secure_heap_transitions) {
  OpenSSLSecureHeapDescription D(*reinterpret_cast<HeapSolver *>(Scratch));
  const Api &A = anyApi(D, Heap);
  HS S = HStates[pv::choose(6, "state")];
  pv::ensures(D.getNextState(A.Name, S) == heapSpec(A, S),
              "secure heap automaton");
}
PVC_CONTRACT(secure_heap_transitions_at_call) {
  pv::replace(&HeapSolver::resultAt, &fakeHeapAt);
  pv_note_assumption_("the secure-heap propagation results are an arbitrary map");
  constexpr SecureHeapValue Vs[] = {SecureHeapValue::TOP, SecureHeapValue::BOT,
                                    SecureHeapValue::INITIALIZED};
  HeapResult = Vs[pv::choose(3, "init")];
  pv::ir::World W;
  OpenSSLSecureHeapDescription D(*reinterpret_cast<HeapSolver *>(Scratch));
  const Api &A = anyApi(D, Heap);
  auto *FT = W.fnTy(W.voidTy(), nullptr, 0);
  auto *Call = W.call(FT, W.func(FT), nullptr, 0);
  HS S = HStates[pv::choose(6, "state")];
  HS Want = HeapResult == SecureHeapValue::INITIALIZED ? heapSpec(A, S) : HS::ERROR;
  pv::ensures(D.getNextState(A.Name, S, Call) == Want,
              "secure heap automaton: the heap must be initialized at the call");
  pv::ensures(HeapAsked == Call && HeapFact == SecureHeapFact::INITIALIZED,
              "initialization is looked up at this call");
}
PVC_CONTRACT(secure_heap_other) {
  OpenSSLSecureHeapDescription D(*reinterpret_cast<HeapSolver *>(Scratch));
  nonApi(D);
  specials(D);
  pv::ensures(D.uninit() == HS::UNINIT && D.error() == HS::ERROR &&
                  D.bottom() == HS::BOT && D.top() == HS::TOP,
              "special states");
}

// ---- OpenSSL memory -------------------------------------------------------
namespace {
// the state type is private to its implementation file; by its numbers:
constexpr int MBot = 0, MZeroed = 1, MFreed = 2, MError = 3, MAllocated = 4,
              MTop = 42;
const Api Mem[] = {{"CRYPTO_malloc", -1},
                   {"CRYPTO_zalloc", -1},
                   {"CRYPTO_free", 0},
                   {"OPENSSL_cleanse", 0}};
} // namespace
PVC_CONTRACT(secure_memory_transitions) {
  OpenSSLSecureMemoryDescription D;
  const Api &A = anyApi(D, Mem);
  int S = int(pv::choose(5, "state"));
  int Want;
  if (is(A, "CRYPTO_malloc"))
    Want = S == MError ? MError : MAllocated;
  else if (is(A, "CRYPTO_zalloc"))
    Want = S == MError ? MError : MZeroed;
  else if (is(A, "CRYPTO_free"))
    Want = S == MZeroed ? MFreed : MError;
  else
    Want = S == MBot ? MBot : S == MZeroed || S == MAllocated ? MZeroed : MError;
  pv::ensures(int(D.getNextState(A.Name, OpenSSLSecureMemoryState(S))) == Want,
              "secure memory automaton: memory is cleansed before it is freed");
}
PVC_CONTRACT(secure_memory_other) {
  OpenSSLSecureMemoryDescription D;
  nonApi(D);
  pv::ensures(int(D.uninit()) == MBot && int(D.error()) == MError &&
                  int(D.bottom()) == MBot && int(D.top()) == MTop,
              "special states");
}
