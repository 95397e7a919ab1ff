// Arbitrary lattices / arbitrary edge functions used by the contracts.
#pragma once
#include "pv/pv.h"

#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/Utils/JoinLattice.h"

namespace pv {
/// Powerset lattice over 64 atoms: Top = {}, Bottom = everything, join = union.
struct PSet {
  uint64_t Bits = 0;
  friend bool operator==(PSet A, PSet B) noexcept { return A.Bits == B.Bits; }
  friend bool operator!=(PSet A, PSet B) noexcept { return A.Bits != B.Bits; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, PSet) {
    return OS;
  }
};
} // namespace pv
namespace psr {
template <> struct JoinLatticeTraits<pv::PSet> {
  static constexpr pv::PSet top() noexcept { return {0}; }
  static constexpr pv::PSet bottom() noexcept { return {~uint64_t(0)}; }
  static constexpr pv::PSet join(pv::PSet A, pv::PSet B) noexcept {
    return {A.Bits | B.Bits};
  }
};
} // namespace psr
namespace pv {
using Flat = psr::LatticeDomain<int64_t>;

/// Uniform access to a lattice value: (case tag, payload)
template <typename L> struct Lat;
template <> struct Lat<PSet> {
  static PSet any(const char *N) { return {pv::any<uint64_t>(N)}; }
  static PSet apply(uint64_t Fn, PSet X) {
    return {pv_uf2("ef_bits", Fn, X.Bits)};
  }
  // A is at least as far towards Bottom as B
  static bool geq(PSet A, PSet B) { return (A.Bits | B.Bits) == A.Bits; }
  static bool eq(PSet A, PSet B) { return A.Bits == B.Bits; }
  static PSet join(PSet A, PSet B) { return {A.Bits | B.Bits}; }
};
template <> struct Lat<Flat> {
  static Flat make(uint64_t Tag, int64_t V) {
    if (Tag == 0)
      return psr::Top{};
    if (Tag == 1)
      return V;
    return psr::Bottom{};
  }
  static Flat any(const char *N) {
    uint64_t T = choose(3, N);
    return make(T, T == 1 ? pv::any<int64_t>(N) : 0);
  }
  static uint64_t tag(const Flat &X) {
    return X.index() == 0 ? 0 : X.index() == 1 ? 1 : 2;
  }
  static int64_t val(const Flat &X) {
    return X.index() == 1 ? std::get<int64_t>(X) : 0;
  }
  static Flat apply(uint64_t Fn, const Flat &X) {
    uint64_t T = pv_uf3("ef_tag", Fn, tag(X), val(X));
    T = pv_concrete_(pv_ite_(T == 0, 0, pv_ite_(T == 1, 2, 1)));
    return make(T, T == 1 ? int64_t(pv_uf3("ef_val", Fn, tag(X), val(X))) : 0);
  }
  static bool eq(const Flat &A, const Flat &B) {
    return tag(A) == tag(B) && (tag(A) != 1 || val(A) == val(B));
  }
  static bool geq(const Flat &A, const Flat &B) {
    return tag(A) == 2 || tag(B) == 0 || eq(A, B);
  }
  static Flat join(const Flat &A, const Flat &B) {
    if (tag(A) == 0)
      return B;
    if (tag(B) == 0)
      return A;
    if (eq(A, B))
      return A;
    return psr::Bottom{};
  }
};
/// A flat lattice over a payload that is too large for small-object storage.
struct Wide {
  int64_t A = 0, B = 0;
  friend bool operator==(const Wide &X, const Wide &Y) noexcept {
    return X.A == Y.A && X.B == Y.B;
  }
  friend bool operator!=(const Wide &X, const Wide &Y) noexcept {
    return !(X == Y);
  }
  friend bool operator<(const Wide &X, const Wide &Y) noexcept {
    return X.A != Y.A ? X.A < Y.A : X.B < Y.B;
  }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Wide &) {
    return OS;
  }
};
using WideFlat = psr::LatticeDomain<Wide>;
template <> struct Lat<WideFlat> {
  static WideFlat make(uint64_t Tag, Wide V) {
    if (Tag == 0)
      return psr::Top{};
    if (Tag == 1)
      return V;
    return psr::Bottom{};
  }
  static Wide anyWide(const char *N) {
    int64_t A = pv::any<int64_t>(N), B = pv::any<int64_t>(N);
    return {A, B};
  }
  static WideFlat any(const char *N) {
    uint64_t T = choose(3, N);
    return make(T, T == 1 ? anyWide(N) : Wide{});
  }
  static uint64_t tag(const WideFlat &X) {
    return X.index() == 0 ? 0 : X.index() == 1 ? 1 : 2;
  }
  static Wide val(const WideFlat &X) {
    return X.index() == 1 ? std::get<Wide>(X) : Wide{};
  }
  static WideFlat apply(uint64_t Fn, const WideFlat &X) {
    uint64_t H = pv_uf3("ef_pack", tag(X), val(X).A, val(X).B);
    uint64_t T = pv_uf3("ef_tag", Fn, tag(X), H);
    T = pv_concrete_(pv_ite_(T == 0, 0, pv_ite_(T == 1, 2, 1)));
    return make(T, T == 1 ? Wide{int64_t(pv_uf3("ef_val", Fn, tag(X), H)),
                                 int64_t(pv_uf3("ef_val2", Fn, tag(X), H))}
                          : Wide{});
  }
  static bool eq(const WideFlat &A, const WideFlat &B) {
    return tag(A) == tag(B) && (tag(A) != 1 || val(A) == val(B));
  }
  static bool geq(const WideFlat &A, const WideFlat &B) {
    return tag(A) == 2 || tag(B) == 0 || eq(A, B);
  }
  static WideFlat join(const WideFlat &A, const WideFlat &B) {
    if (tag(A) == 0)
      return B;
    if (tag(B) == 0)
      return A;
    if (eq(A, B))
      return A;
    return psr::Bottom{};
  }
};
/// A powerset lattice whose element does not fit small-object storage.
struct WPSet {
  uint64_t Lo = 0, Hi = 0;
  friend bool operator==(const WPSet &A, const WPSet &B) noexcept {
    return A.Lo == B.Lo && A.Hi == B.Hi;
  }
  friend bool operator!=(const WPSet &A, const WPSet &B) noexcept {
    return !(A == B);
  }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const WPSet &) {
    return OS;
  }
};
} // namespace pv
namespace psr {
template <> struct JoinLatticeTraits<pv::WPSet> {
  static pv::WPSet top() noexcept { return {0, 0}; }
  static pv::WPSet bottom() noexcept {
    return {~uint64_t(0), ~uint64_t(0)};
  }
  static pv::WPSet join(const pv::WPSet &A, const pv::WPSet &B) noexcept {
    return {A.Lo | B.Lo, A.Hi | B.Hi};
  }
};
} // namespace psr
namespace pv {
template <> struct Lat<WPSet> {
  static WPSet any(const char *N) {
    uint64_t A = pv::any<uint64_t>(N), B = pv::any<uint64_t>(N);
    return {A, B};
  }
  static WPSet apply(uint64_t Fn, const WPSet &X) {
    return {pv_uf3("ef_lo", Fn, X.Lo, X.Hi), pv_uf3("ef_hi", Fn, X.Lo, X.Hi)};
  }
  static bool geq(const WPSet &A, const WPSet &B) {
    return (A.Lo | B.Lo) == A.Lo && (A.Hi | B.Hi) == A.Hi;
  }
  static bool eq(const WPSet &A, const WPSet &B) { return A == B; }
  static WPSet join(const WPSet &A, const WPSet &B) {
    return {A.Lo | B.Lo, A.Hi | B.Hi};
  }
};
template <> struct Lat<psr::BinaryDomain> {
  using B = psr::BinaryDomain;
  static B any(const char *N) { return choose(2, N) ? B::TOP : B::BOTTOM; }
  static B apply(uint64_t Fn, B X) {
    return pv_concrete_(pv_uf2("ef_bin", Fn, uint64_t(X)) & 1) ? B::TOP
                                                              : B::BOTTOM;
  }
  static bool eq(B X, B Y) { return X == Y; }
  static bool geq(B X, B Y) { return X == B::BOTTOM || Y == B::TOP; }
  static B join(B X, B Y) {
    return X == B::BOTTOM || Y == B::BOTTOM ? B::BOTTOM : B::TOP;
  }
};

/// The interface contract of EdgeFunction, as an implementation:
///   computeTarget is an arbitrary (uninterpreted) function,
///   compose returns exactly "second after this",
///   join returns an arbitrary function above both arguments.
/// Whatever is proved about a concrete edge function against AnyEF operands is
/// proved against every conforming edge function (behavioural subtyping).
template <typename L> struct AnyEF;
template <typename L> struct AnyComp {
  using l_t = L;
  psr::EdgeFunction<L> F, S;
  l_t computeTarget(psr::ByConstRef<l_t> X) const {
    return S.computeTarget(F.computeTarget(X));
  }
  static psr::EdgeFunction<L> compose(psr::EdgeFunctionRef<AnyComp> This,
                                      const psr::EdgeFunction<L> &Snd) {
    return AnyComp{This, Snd};
  }
  static psr::EdgeFunction<L> join(psr::EdgeFunctionRef<AnyComp> This,
                                   const psr::EdgeFunction<L> &Oth);
  friend bool operator==(const AnyComp &A, const AnyComp &B) {
    return A.F == B.F && A.S == B.S;
  }
};
template <typename L> struct AnyJoin {
  using l_t = L;
  psr::EdgeFunction<L> F, G;
  uint32_t Slack;
  l_t computeTarget(psr::ByConstRef<l_t> X) const {
    return Lat<L>::join(Lat<L>::join(F.computeTarget(X), G.computeTarget(X)),
                        Lat<L>::apply(Slack, X));
  }
  static psr::EdgeFunction<L> compose(psr::EdgeFunctionRef<AnyJoin> This,
                                      const psr::EdgeFunction<L> &Snd) {
    return AnyComp<L>{This, Snd};
  }
  static psr::EdgeFunction<L> join(psr::EdgeFunctionRef<AnyJoin> This,
                                   const psr::EdgeFunction<L> &Oth) {
    return AnyJoin{This, Oth, pv::any<uint32_t>("slack")};
  }
  friend bool operator==(const AnyJoin &A, const AnyJoin &B) {
    return A.F == B.F && A.G == B.G && A.Slack == B.Slack;
  }
};
template <typename L> struct AnyEF {
  using l_t = L;
  uint32_t Id;
  l_t computeTarget(psr::ByConstRef<l_t> X) const {
    return Lat<L>::apply(Id, X);
  }
  static psr::EdgeFunction<L> compose(psr::EdgeFunctionRef<AnyEF> This,
                                      const psr::EdgeFunction<L> &Snd) {
    return AnyComp<L>{This, Snd};
  }
  static psr::EdgeFunction<L> join(psr::EdgeFunctionRef<AnyEF> This,
                                   const psr::EdgeFunction<L> &Oth) {
    return AnyJoin<L>{This, Oth, pv::any<uint32_t>("slack")};
  }
  friend bool operator==(AnyEF A, AnyEF B) { return A.Id == B.Id; }
};
/// Arbitrary edge function that declares itself constant.
template <typename L> struct AnyConstEF {
  using l_t = L;
  uint32_t Id;
  l_t computeTarget(psr::ByConstRef<l_t> /*X*/) const {
    return Lat<L>::apply(Id, l_t(psr::JoinLatticeTraits<L>::top()));
  }
  static psr::EdgeFunction<L> compose(psr::EdgeFunctionRef<AnyConstEF> This,
                                      const psr::EdgeFunction<L> &Snd) {
    return AnyComp<L>{This, Snd};
  }
  static psr::EdgeFunction<L> join(psr::EdgeFunctionRef<AnyConstEF> This,
                                   const psr::EdgeFunction<L> &Oth) {
    return AnyJoin<L>{This, Oth, pv::any<uint32_t>("slack")};
  }
  constexpr bool isConstant() const noexcept { return true; }
  friend bool operator==(AnyConstEF A, AnyConstEF B) { return A.Id == B.Id; }
};
template <typename L>
psr::EdgeFunction<L> AnyComp<L>::join(psr::EdgeFunctionRef<AnyComp> This,
                                      const psr::EdgeFunction<L> &Oth) {
  return AnyJoin<L>{This, Oth, pv::any<uint32_t>("slack")};
}
} // namespace pv
