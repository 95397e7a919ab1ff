// Native runtime of the contract language: replays a counterexample reported
// by PVC against the real, natively compiled phasar code, or searches for a
// failing input with seeded random values.
//
//   prog --list
//   prog --replay FILE
//   prog --search CONTRACT --seed S --runs N --time SECONDS --out FILE
//
// Exit codes: 0 contract held, 77 contract violated, 78 the recorded inputs do
// not satisfy the precondition, anything else: the code under test crashed.
#include "pv/pv.h"
#include <csetjmp>
#include <fcntl.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace {
struct Entry {
  const char *Name;
  void (*Fn)();
};
std::vector<Entry> &entries() {
  static std::vector<Entry> E;
  return E;
}
jmp_buf Jmp;
bool Replay = false;
struct In {
  std::string Name;
  uint64_t V;
};
std::vector<In> Queue;
size_t QPos = 0;
std::map<std::vector<uint64_t>, uint64_t> UFTab; // (hash(name), args...) -> v
uint64_t Rng = 1, UFSeed = 1;
struct Shared {
  uint64_t Seed;
  uint64_t Runs, Satisfied, Asserts;
  char Label[512];
};
Shared *Sh;
std::vector<uint64_t> Recent;
bool Quiet = false;
double TimeLimit = 5;

uint64_t mix(uint64_t X) {
  X += 0x9e3779b97f4a7c15ULL;
  X = (X ^ (X >> 30)) * 0xbf58476d1ce4e5b9ULL;
  X = (X ^ (X >> 27)) * 0x94d049bb133111ebULL;
  return X ^ (X >> 31);
}
uint64_t rnd() {
  Rng = mix(Rng);
  return Rng;
}
uint64_t hs(const char *S) {
  uint64_t H = 1469598103934665603ULL;
  for (; *S; ++S)
    H = (H ^ (unsigned char)*S) * 1099511628211ULL;
  return H;
}
uint64_t mask(uint64_t V, unsigned W) {
  return W >= 64 ? V : V & ((1ULL << W) - 1);
}
uint64_t interesting(unsigned W) {
  static const uint64_t K[] = {0, 1, 2, 3, 4, 5, 7, 8, ~0ULL, ~1ULL};
  switch (rnd() % 10) {
  case 0:
  case 1:
  case 2:
    return K[rnd() % 10];
  case 3:
    return 1ULL << (W - 1);
  case 4:
    return (1ULL << (W - 1)) - 1;
  case 5:
  case 6:
    if (!Recent.empty())
      return Recent[rnd() % Recent.size()];
    return rnd() % 4;
  case 7:
    if (!Recent.empty())
      return Recent[rnd() % Recent.size()] + (rnd() % 3) - 1;
    return rnd() % 16;
  case 8: {
    static const unsigned B[] = {7, 8, 15, 16, 31, 32, 33, 63};
    return 1ULL << (B[rnd() % 8] % W);
  }
  default:
    return rnd();
  }
}
uint64_t uf(const char *F, std::vector<uint64_t> A) {
  if (Replay) {
    std::vector<uint64_t> K{hs(F)};
    K.insert(K.end(), A.begin(), A.end());
    auto It = UFTab.find(K);
    if (It != UFTab.end())
      return It->second;
    return 0;
  }
  uint64_t H = UFSeed ^ hs(F);
  for (uint64_t X : A)
    H = mix(H ^ X);
  // small ranges make collisions (and equalities) likely
  switch (H >> 60) {
  case 0:
  case 1:
  case 2:
  case 3:
  case 4:
    return (H >> 8) % 3;
  case 5:
  case 6:
  case 7:
  case 8:
    return (H >> 8) % 8;
  case 9:
    return A.empty() ? 1 : A.back();
  case 10:
    return ~0ULL;
  default:
    return mix(H);
  }
}
} // namespace

pv::Reg::Reg(const char *Name, void (*Fn)()) { entries().push_back({Name, Fn}); }
static std::vector<void (*)()> &resets() {
  static std::vector<void (*)()> R;
  return R;
}
pv::OnReset::OnReset(void (*Fn)()) { resets().push_back(Fn); }

#include <sys/mman.h>
#include <unistd.h>
namespace {
struct Patch {
  unsigned char *At;
  unsigned char Old[12];
  bool writable() {
    uintptr_t Pg = sysconf(_SC_PAGESIZE);
    uintptr_t B = reinterpret_cast<uintptr_t>(At) & ~(Pg - 1);
    uintptr_t E = (reinterpret_cast<uintptr_t>(At) + 12 + Pg - 1) & ~(Pg - 1);
    return mprotect(reinterpret_cast<void *>(B), E - B,
                    PROT_READ | PROT_WRITE | PROT_EXEC) == 0;
  }
  __attribute__((no_sanitize("all"))) void put(void *To) {
    unsigned char J[12] = {0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0};
    for (int I = 0; I < 8; ++I)
      J[2 + I] = uint64_t(To) >> (8 * I);
    for (int I = 0; I < 12; ++I)
      reinterpret_cast<volatile unsigned char *>(At)[I] = J[I];
    __builtin___clear_cache(reinterpret_cast<char *>(At),
                            reinterpret_cast<char *>(At) + 12);
  }
  __attribute__((no_sanitize("all"))) void undo() {
    for (int I = 0; I < 12; ++I)
      reinterpret_cast<volatile unsigned char *>(At)[I] = Old[I];
    __builtin___clear_cache(reinterpret_cast<char *>(At),
                            reinterpret_cast<char *>(At) + 12);
  }
};
std::vector<Patch> Patches;
void undoPatches() {
  for (auto &P : Patches)
    P.undo();
}
} // namespace
extern "C" {
uint64_t pv_any_bits(uint32_t W, const char *Name) {
  if (Replay) {
    if (QPos < Queue.size())
      return mask(Queue[QPos++].V, W);
    return 0;
  }
  uint64_t V = W == 1 ? rnd() & 1 : mask(interesting(W), W);
  Recent.push_back(V);
  if (Recent.size() > 32)
    Recent.erase(Recent.begin());
  return V;
}
uint64_t pv_fork_(uint64_t N, const char *) {
  if (N == 0)
    longjmp(Jmp, 2);
  if (Replay) {
    if (QPos < Queue.size())
      return Queue[QPos++].V % N;
    return 0;
  }
  return rnd() % N;
}
void pv_assume_(bool C) {
  if (!C)
    longjmp(Jmp, 2);
}
void pv_assert_(bool C, const char *L) {
  if (Sh)
    Sh->Asserts++;
  if (C)
    return;
  if (Sh)
    snprintf(Sh->Label, sizeof Sh->Label, "%s", L);
  if (!Quiet)
    printf("PV-FAIL contract: %s\n", L);
  fflush(stdout);
  longjmp(Jmp, 3);
}
uint64_t pv_concrete_(uint64_t V) { return V; }
uint64_t pv_uf0(const char *F) { return uf(F, {}); }
uint64_t pv_uf1(const char *F, uint64_t A) { return uf(F, {A}); }
uint64_t pv_uf2(const char *F, uint64_t A, uint64_t B) { return uf(F, {A, B}); }
uint64_t pv_uf3(const char *F, uint64_t A, uint64_t B, uint64_t C) {
  return uf(F, {A, B, C});
}
uint64_t pv_uf4(const char *F, uint64_t A, uint64_t B, uint64_t C, uint64_t D) {
  return uf(F, {A, B, C, D});
}
uint64_t pv_uf5(const char *F, uint64_t A, uint64_t B, uint64_t C, uint64_t D,
                uint64_t E) {
  return uf(F, {A, B, C, D, E});
}
void pv_cover_(const char *) {}
void pv_want_cover_(const char *) {}
void pv_note_assumption_(const char *) {}
void pv_note_bounded_(const char *) {}
void pv_note_invariant_(const char *) {}
// A replaced function gets a jump to its stand-in at its entry.
void pv_replace_(void *From, void *To) {
  if (reinterpret_cast<uintptr_t>(From) < 4096)
    return;
  for (auto &P : Patches)
    if (P.At == From) {
      P.put(To);
      return;
    }
  Patch P;
  P.At = static_cast<unsigned char *>(From);
  memcpy(P.Old, From, sizeof(P.Old));
  if (!P.writable())
    return;
  P.put(To);
  Patches.push_back(P);
}
void pv_unreplace_(void *From) {
  for (auto &P : Patches)
    if (P.At == From)
      P.undo();
}
int pv_symbolic_() { return 0; }
uint64_t pv_live_heap_() { return 0; }
int pv_is_live_(const void *) { return 1; }
void pv_die_() { longjmp(Jmp, 2); }
void pv_done_() { longjmp(Jmp, 2); }
void pv_abort_path_(const char *) { longjmp(Jmp, 2); }
int pv_must_equal_(uint64_t A, uint64_t B) { return A == B; }
uint64_t pv_ite_(bool C, uint64_t A, uint64_t B) { return C ? A : B; }
bool pv_and_(bool A, bool B) { return A && B; }
bool pv_or_(bool A, bool B) { return A || B; }
void pv_havoc_(void *P, uint64_t N) {
  for (uint64_t I = 0; I < N; ++I)
    static_cast<unsigned char *>(P)[I] = Replay ? 0 : rnd();
}
void pv_cut_begin_(uint64_t) {}
void pv_cut_allow_(void *, uint64_t) {}
void pv_cut_end_() {}
void pv_trace_(const char *, uint64_t) {}
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
         "max_allocation_size_mb=2048";
}
const char *__ubsan_default_options() {
  return "print_stacktrace=0:abort_on_error=1:halt_on_error=1";
}
}

static int runOnce(void (*Fn)()) {
  int R = setjmp(Jmp);
  undoPatches();
  if (R == 0) {
    for (auto *F : resets())
      F();
    Fn();
    return 0;
  }
  return R == 2 ? 78 : 77;
}
static void seedFor(uint64_t S) {
  Rng = mix(S);
  UFSeed = mix(S ^ 0x1234567);
  Recent.clear();
}
static double nowS() {
  struct timespec T;
  clock_gettime(CLOCK_MONOTONIC, &T);
  return T.tv_sec + T.tv_nsec * 1e-9;
}

int main(int Argc, char **Argv) {
  std::string Mode, Arg, Out;
  uint64_t Seed = 1, Runs = 1000;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I];
    if (A == "--list") {
      for (auto &E : entries())
        printf("%s\n", E.Name);
      return 0;
    }
    if (A == "--replay" || A == "--search") {
      Mode = A;
      Arg = Argv[++I];
    } else if (A == "--seed")
      Seed = strtoull(Argv[++I], 0, 10);
    else if (A == "--runs")
      Runs = strtoull(Argv[++I], 0, 10);
    else if (A == "--time")
      TimeLimit = atof(Argv[++I]);
    else if (A == "--out")
      Out = Argv[++I];
  }
  if (Mode == "--replay") {
    FILE *F = fopen(Arg.c_str(), "r");
    if (!F)
      return 3;
    std::string Contract;
    char Buf[8192];
    bool HaveSeed = false;
    while (fgets(Buf, sizeof Buf, F)) {
      char N[4096];
      unsigned long long V;
      if (sscanf(Buf, "contract %4000s", N) == 1)
        Contract = N;
      else if (sscanf(Buf, "seed %llu", &V) == 1) {
        HaveSeed = true;
        Seed = V;
      } else if (sscanf(Buf, "in %4000s %llu", N, &V) == 2)
        Queue.push_back({N, V});
      else if (!strncmp(Buf, "uf ", 3)) {
        char *P = strtok(Buf + 3, " \n");
        std::vector<uint64_t> K{hs(P)};
        std::vector<uint64_t> Vs;
        while ((P = strtok(nullptr, " \n")))
          Vs.push_back(strtoull(P, 0, 10));
        if (Vs.empty())
          continue;
        uint64_t R = Vs.back();
        Vs.pop_back();
        K.insert(K.end(), Vs.begin(), Vs.end());
        UFTab[K] = R;
      }
    }
    fclose(F);
    if (HaveSeed)
      seedFor(Seed);
    else
      Replay = true;
    alarm(60);
    for (auto &E : entries())
      if (Contract == E.Name) {
        int R = runOnce(E.Fn);
        printf("replay of %s: %s\n", E.Name,
               R == 0    ? "contract held"
               : R == 77 ? "CONTRACT VIOLATED"
                         : "inputs do not satisfy the precondition");
        return R;
      }
    fprintf(stderr, "no such contract %s\n", Contract.c_str());
    return 3;
  }
  if (Mode == "--search") {
    Sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Quiet = true;
    void (*Fn)() = nullptr;
    for (auto &E : entries())
      if (Arg == E.Name)
        Fn = E.Fn;
    if (!Fn)
      return 3;
    double T0 = nowS();
    fflush(stdout);
    pid_t P = fork();
    if (P == 0) {
      if (int Null = open("/dev/null", O_WRONLY); Null >= 0)
        dup2(Null, 1); // the code under test may print
      for (uint64_t I = 0; I < Runs; ++I) {
        Sh->Seed = mix(Seed + I * 0x10001);
        seedFor(Sh->Seed);
        alarm(30);
        int R = runOnce(Fn);
        Sh->Runs++;
        if (R == 0)
          Sh->Satisfied++;
        if (R == 77)
          _exit(77);
        if (nowS() - T0 > TimeLimit)
          break;
      }
      _exit(0);
    }
    int St = 0;
    waitpid(P, &St, 0);
    bool Bad = !(WIFEXITED(St) && WEXITSTATUS(St) == 0);
    bool Timeout = WIFSIGNALED(St) && WTERMSIG(St) == SIGALRM;
    printf("{\"contract\":\"%s\",\"runs\":%llu,\"satisfied\":%llu,\"asserts\":"
           "%llu,\"violated\":%s,\"timeout\":%s,\"label\":\"%s\"}\n",
           Arg.c_str(), (unsigned long long)Sh->Runs,
           (unsigned long long)Sh->Satisfied, (unsigned long long)Sh->Asserts,
           Bad && !Timeout ? "true" : "false", Timeout ? "true" : "false",
           Sh->Label);
    if (Bad && !Timeout && !Out.empty()) {
      FILE *F = fopen(Out.c_str(), "w");
      fprintf(F, "contract %s\nseed %llu\n", Arg.c_str(),
              (unsigned long long)Sh->Seed);
      fclose(F);
    }
    return Bad && !Timeout ? 77 : 0;
  }
  return 3;
}
