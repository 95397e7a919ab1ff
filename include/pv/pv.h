// Contract language of PVC.
//
// A contract is a function PVC_CONTRACT(name) { ... } that
//   * builds an arbitrary pre-state      (pv::any, pv::choose, pv::requires_)
//   * executes the REAL phasar code       (included from /repo, unmodified)
//   * states the postcondition            (pv::ensures)
// Under PVC (the deductive verifier) pv::any is a universally quantified value;
// compiled natively (PV_NATIVE) the same text is the replay / search harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>

extern "C" {
uint64_t pv_any_bits(uint32_t Bits, const char *Name);
void pv_assume_(bool C);
void pv_assert_(bool C, const char *Label);
uint64_t pv_fork_(uint64_t N, const char *Name);
uint64_t pv_concrete_(uint64_t V);
uint64_t pv_uf0(const char *F);
uint64_t pv_uf1(const char *F, uint64_t A);
uint64_t pv_uf2(const char *F, uint64_t A, uint64_t B);
uint64_t pv_uf3(const char *F, uint64_t A, uint64_t B, uint64_t C);
uint64_t pv_uf4(const char *F, uint64_t A, uint64_t B, uint64_t C, uint64_t D);
uint64_t pv_uf5(const char *F, uint64_t A, uint64_t B, uint64_t C, uint64_t D,
                uint64_t E);
void pv_cover_(const char *L);
void pv_want_cover_(const char *L);
void pv_note_assumption_(const char *L);
void pv_note_bounded_(const char *L);
void pv_note_invariant_(const char *L);
void pv_replace_(void *From, void *To);
void pv_unreplace_(void *From);
int pv_symbolic_();
uint64_t pv_live_heap_();
int pv_is_live_(const void *P);
void pv_die_();
void pv_done_();
void pv_abort_path_(const char *Why);
int pv_must_equal_(uint64_t A, uint64_t B);
uint64_t pv_ite_(bool C, uint64_t A, uint64_t B);
bool pv_and_(bool A, bool B);
bool pv_or_(bool A, bool B);
void pv_havoc_(void *P, uint64_t N);
void pv_cut_begin_(uint64_t Id);
void pv_cut_allow_(void *P, uint64_t N);
void pv_cut_end_();
void pv_trace_(const char *L, uint64_t V);
}

namespace pv {
/// Arbitrary value of a scalar type.
template <typename T> inline T any(const char *Name) {
  static_assert(sizeof(T) <= 8, "");
  if constexpr (std::is_same_v<T, bool>) {
    return pv_any_bits(1, Name) != 0;
  } else if constexpr (std::is_pointer_v<T>) {
    return reinterpret_cast<T>(pv_any_bits(64, Name));
  } else {
    return static_cast<T>(pv_any_bits(sizeof(T) * 8, Name));
  }
}
/// Arbitrary value in [0, N): explored exhaustively, concretely.
inline uint64_t choose(uint64_t N, const char *Name) {
  return pv_fork_(N, Name);
}
inline bool flip(const char *Name) { return pv_fork_(2, Name) != 0; }
inline void requires_(bool C) { pv_assume_(C); }
inline void assume(bool C) { pv_assume_(C); }
inline void ensures(bool C, const char *L) { pv_assert_(C, L); }
inline bool implies(bool A, bool B) { return pv_or_(!A, B); }
/// Declares a cover point that must be reachable (vacuity guard).
inline void cover(const char *L) { pv_cover_(L); }
inline bool symbolic() { return pv_symbolic_() != 0; }

template <typename M> inline void *mfp(M Fn) {
  static_assert(sizeof(M) >= sizeof(void *), "");
  void *P;
  std::memcpy(&P, &Fn, sizeof(void *));
  return P;
}
template <typename F, typename G> inline void replace(F From, G To) {
  pv_replace_(mfp(From), mfp(To));
}
} // namespace pv

#ifdef PV_NATIVE
namespace pv {
struct Reg {
  Reg(const char *Name, void (*Fn)());
};
/// Runs before every native run of a contract (ghost state of earlier runs).
struct OnReset {
  OnReset(void (*Fn)());
};
} // namespace pv
#define PVC_CONTRACT(NAME)                                                     \
  extern "C" void pvc_##NAME();                                                \
  static ::pv::Reg pv_reg_##NAME(#NAME, &pvc_##NAME);                          \
  extern "C" void pvc_##NAME()
#else
#define PVC_CONTRACT(NAME)                                                     \
  extern "C" void pvc_##NAME();                                                \
  extern "C" __attribute__((used, noinline)) void pvc_##NAME()
#endif
