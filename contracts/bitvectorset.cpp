// Contracts: BitVectorSet (include/phasar/Utils/BitVectorSet.h).
//
// The element universe (a boost::bimap) is abstract: arbitrary size, arbitrary
// positions of the named elements.  A set is an arbitrary bit vector of W
// words (W = 0 .. 3, every word and the exact size arbitrary).
#include "pv/pv.h"
#include <functional>
struct Elem {
  uint32_t Name = 99; // named elements: 0..3, all others: 100 + position
  static Elem unnamed(size_t P) { return {uint32_t(100 + P)}; }
  friend bool operator==(Elem A, Elem B) { return A.Name == B.Name; }
};
namespace std {
template <> struct hash<Elem> {
  size_t operator()(Elem E) const { return E.Name; }
};
} // namespace std
#include "llvm/Support/raw_ostream.h"
llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Elem) { return OS; }

#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/Hashing.h"
#include "boost/bimap.hpp"
#include <algorithm>
#include <cassert>
#include <initializer_list>
#define private public
#include "phasar/Utils/BitVectorSet.h"
#undef private

using Set = psr::BitVectorSet<Elem>;
using BV = llvm::BitVector;

namespace {
constexpr unsigned MaxW = 3;
auto &universe() { return Set::Position; }
/// Named element I with arbitrary state.
void name(unsigned I, bool MustKnow = false) {
  auto &U = universe();
  U.Key[I] = Elem{I};
  U.NNamed = I + 1;
  U.Known[I] = MustKnow ? true : pv::flip("known");
  U.Pos[I] = 0;
  if (U.Known[I]) {
    U.Pos[I] = pv::any<uint16_t>("pos");
    pv::assume(U.Pos[I] < U.N);
    for (unsigned J = 0; J < I; ++J)
      if (U.Known[J])
        pv::assume(U.Pos[J] != U.Pos[I]);
  }
}
void anyUniverse(unsigned MaxBits = MaxW * 64) {
  pv_note_bounded_("bit vectors of at most 3 words (192 positions)");
  auto &U = universe();
  U.NNamed = 0;
  U.N = pv::any<uint16_t>("universe");
  pv::assume(U.N < MaxBits);
}
/// number of allocated words (SmallVector size, independent of the bit count)
unsigned numWords(const Set &S) {
  unsigned N;
  std::memcpy(&N, reinterpret_cast<const char *>(&S.Bits) + 8, sizeof(N));
  return N;
}
uint64_t word(const Set &S, unsigned W) {
  if (numWords(S) == 0)
    return 0;
  auto D = S.Bits.getData();
  return W < D.size() ? D[W] : 0;
}
bool bit(const Set &S, uint64_t P) {
  uint64_t R = 0;
  for (unsigned W = 0; W <= MaxW; ++W)
    R = pv_ite_(P / 64 == W, word(S, W) >> (P % 64), R);
  return R & 1;
}
/// Representation invariant of llvm::BitVector
void checkRep(const Set &S) {
  uint64_t N = S.Bits.size(), W = numWords(S);
  pv::ensures((N + 63) / 64 == W, "words match the size");
  if (W)
    pv::ensures(pv_or_(N % 64 == 0, (word(S, W - 1) >> (N % 64)) == 0),
                "bits beyond the size are zero");
}
void setSize(BV &B, unsigned N) {
  static_assert(sizeof(BV) == sizeof(llvm::SmallVector<uintptr_t>) + 8);
  std::memcpy(reinterpret_cast<char *>(&B) + sizeof(llvm::SmallVector<uintptr_t>),
              &N, sizeof(N));
}
void mk(Set &S, const char *Nm, unsigned Max = MaxW, bool FewSizes = false) {
  unsigned W = pv::choose(Max + 1, Nm);
  S.Bits.resize(W * 64);
  for (unsigned I = 0; I < W; ++I)
    const_cast<uintptr_t &>(S.Bits.getData()[I]) = pv::any<uint64_t>(Nm);
  if (W) {
    constexpr uint64_t Cuts[] = {0, 1, 33, 63};
    uint64_t Cut =
        FewSizes ? Cuts[pv::choose(4, Nm)] : pv::any<uint8_t>(Nm);
    pv::assume(Cut < 64);
    setSize(S.Bits, W * 64 - Cut);
    pv::assume(pv_or_(Cut == 0, (word(S, W - 1) >> ((64 - Cut) & 63)) == 0));
  }
  // every stored element is known
  for (unsigned I = 0; I < W; ++I) {
    uint64_t N = universe().N;
    uint64_t Ok = pv_ite_(N >= (I + 1) * 64, ~uint64_t(0),
                          pv_ite_(N <= I * 64, 0,
                                  (uint64_t(1) << (N & 63)) - 1));
    pv::assume((word(S, I) & ~Ok) == 0);
  }
}
uint64_t popc(uint64_t X) { return __builtin_popcountll(X); }
uint64_t anyPos() {
  uint64_t P = pv::any<uint16_t>("p");
  pv::assume(P < (MaxW + 1) * 64);
  return P;
}
bool same(const Set &A, const Set &B) {
  bool R = true;
  for (unsigned I = 0; I <= MaxW; ++I)
    R = pv_and_(R, word(A, I) == word(B, I));
  return R;
}
} // namespace

PVC_CONTRACT(set_union) {
  anyUniverse();
  Set A, B;
  mk(A, "a"), mk(B, "b");
  Set A0 = A, B0 = B;
  Set C = A.setUnion(B);
  uint64_t P = anyPos();
  pv::ensures(bit(C, P) == pv_or_(bit(A, P), bit(B, P)), "union");
  pv::ensures(same(A, A0) && same(B, B0), "union leaves its operands alone");
  checkRep(C);
}
PVC_CONTRACT(set_intersect) {
  anyUniverse();
  Set A, B;
  mk(A, "a"), mk(B, "b");
  Set A0 = A, B0 = B;
  Set C = A.setIntersect(B);
  uint64_t P = anyPos();
  pv::ensures(bit(C, P) == pv_and_(bit(A, P), bit(B, P)), "intersection");
  pv::ensures(same(A, A0) && same(B, B0), "intersection leaves its operands alone");
  checkRep(C);
}
PVC_CONTRACT(set_inplace) {
  anyUniverse();
  Set A, B;
  mk(A, "a"), mk(B, "b");
  Set A0 = A, B0 = B;
  uint64_t P = anyPos();
  switch (pv::choose(4, "op")) {
  case 0:
    A.setUnionWith(B);
    pv::ensures(bit(A, P) == pv_or_(bit(A0, P), bit(B, P)), "union in place");
    break;
  case 1:
    A.insert(B);
    pv::ensures(bit(A, P) == pv_or_(bit(A0, P), bit(B, P)), "insert a set");
    break;
  case 2:
    A.setIntersectWith(B);
    pv::ensures(bit(A, P) == pv_and_(bit(A0, P), bit(B, P)),
                "intersection in place");
    break;
  case 3:
    A.erase(B);
    pv::ensures(bit(A, P) == pv_and_(bit(A0, P), !bit(B, P)), "difference");
    break;
  }
  pv::ensures(same(B, B0), "the argument is unchanged");
  checkRep(A);
}
PVC_CONTRACT(set_self) {
  anyUniverse();
  Set A;
  mk(A, "a");
  Set A0 = A;
  uint64_t P = anyPos();
  switch (pv::choose(5, "op")) {
  case 0:
    A.setUnionWith(A);
    break;
  case 1:
    A.insert(A);
    break;
  case 2:
    A.setIntersectWith(A);
    break;
  case 3:
    A.erase(A);
    pv::ensures(A.empty() && A.size() == 0 && !bit(A, P), "A \\ A is empty");
    checkRep(A);
    return;
  case 4:
    A.clear();
    pv::ensures(A.empty() && A.size() == 0 && !bit(A, P), "clear");
    checkRep(A);
    return;
  }
  pv::ensures(same(A, A0), "union/intersection with itself changes nothing");
  pv::ensures(A == A, "a set equals itself");
  checkRep(A);
}
PVC_CONTRACT(inclusion) {
  anyUniverse();
  Set A, B;
  mk(A, "a"), mk(B, "b");
  uint64_t Extra = 0;
  for (unsigned I = 0; I < MaxW; ++I)
    Extra |= word(B, I) & ~word(A, I);
  pv::ensures(A.includes(B) == (Extra == 0),
              "A includes B exactly if B has no element outside of A");
}
PVC_CONTRACT(equality) {
  anyUniverse();
  Set A, B;
  mk(A, "a"), mk(B, "b");
  bool Eq = A == B;
  pv::ensures(Eq == same(A, B), "sets are equal exactly if their elements are");
  pv::ensures((A != B) == !Eq, "inequality is the negation of equality");
  if (pv_concrete_(Eq)) {
    pv::cover("equal sets");
  }
}
PVC_CONTRACT(hash_equal) {
  // equal sets: the same words up to trailing zero words
  anyUniverse();
  Set A, B;
  mk(A, "a");
  unsigned WA = numWords(A), WB = pv::choose(MaxW + 1, "words");
  B.Bits.resize(WB * 64);
  for (unsigned I = 0; I < WB; ++I)
    const_cast<uintptr_t &>(B.Bits.getData()[I]) = word(A, I);
  for (unsigned I = WB; I < WA; ++I)
    pv::assume(word(A, I) == 0);
  pv::ensures(A == B && B == A, "sets with the same elements are equal");
  pv::ensures(hash_value(A) == hash_value(B), "equal sets have the same hash");
}
PVC_CONTRACT(size_empty) {
  anyUniverse();
  Set A;
  mk(A, "a");
  uint64_t N = 0;
  bool E = true;
  for (unsigned I = 0; I < MaxW; ++I) {
    N += popc(word(A, I));
    E = pv_and_(E, word(A, I) == 0);
  }
  pv::ensures(A.size() == N, "size is the number of elements");
  pv::ensures(A.empty() == E, "a set is empty exactly if it has no element");
}
PVC_CONTRACT(element_ops) {
  anyUniverse();
  name(0), name(1);
  Set A;
  mk(A, "a");
  auto &U = universe();
  Elem X{0}, Y{1};
  bool InX = U.Known[0] ? bit(A, U.Pos[0]) : false;
  bool InY = U.Known[1] ? bit(A, U.Pos[1]) : false;
  uint64_t P = anyPos();
  bool Old = bit(A, P);
  pv::ensures(A.count(X) == InX && A.find(X) == InX, "membership");
  if (pv::flip("insert")) {
    A.insert(X);
    pv::ensures(A.count(X) == 1 && A.find(X), "an inserted element is found");
    pv::ensures(U.Known[0], "an inserted element has a position");
    pv::ensures(bit(A, P) == pv_or_(Old, P == U.Pos[0]),
                "insertion adds exactly the element");
  } else {
    A.erase(X);
    pv::ensures(A.count(X) == 0 && !A.find(X), "an erased element is gone");
    pv::ensures(bit(A, P) ==
                    pv_and_(Old, !(U.Known[0] ? P == U.Pos[0] : false)),
                "erasure removes exactly the element");
  }
  pv::ensures(A.count(Y) == InY, "other elements are unaffected");
  checkRep(A);
}
PVC_CONTRACT(construct_from_elements) {
  anyUniverse();
  constexpr uint16_t Ns[] = {0, 2, 64, 130};
  universe().N = Ns[pv::choose(4, "size")];
  for (unsigned K = 0; K < 2; ++K) {
    if (universe().N) {
      name(K);
      // keep the position on a word boundary, or anywhere in the first word
      if (universe().Known[K])
        pv::assume(pv_or_(universe().Pos[K] == 0,
                          pv_or_(universe().Pos[K] == 63,
                                 universe().Pos[K] + 1 == universe().N)));
    } else {
      universe().Key[K] = Elem{K};
      universe().Known[K] = false;
      universe().NNamed = K + 1;
    }
  }
  unsigned I = pv::choose(2, "i"), J = pv::choose(2, "j");
  Elem L[2] = {Elem{I}, Elem{J}};
  Set A = pv::flip("list") ? Set({L[0], L[1]}) : Set(L, L + 2);
  for (unsigned K = 0; K < 2; ++K)
    pv::ensures(A.count(Elem{K}) == (K == I || K == J),
                "a set built from elements holds exactly these");
  pv::ensures(A.size() == (I == J ? 1 : 2), "duplicates count once");
  checkRep(A);
}
PVC_CONTRACT(construct_presized) {
  anyUniverse();
  constexpr size_t Counts[] = {0, 1, 64, 65, 129};
  Set B(Counts[pv::choose(5, "count")]);
  pv::ensures(B.empty() && B.size() == 0 && B == Set() && Set() == B,
              "a presized set is empty");
  pv::ensures(hash_value(B) == hash_value(Set()), "empty sets hash equally");
  checkRep(B);
}
PVC_CONTRACT(copies) {
  anyUniverse();
  name(0);
  Set A;
  mk(A, "a");
  Set B = A, C;
  C = A;
  B.insert(Elem{0});
  C.erase(Elem{0});
  pv::ensures(B.count(Elem{0}) == 1 && C.count(Elem{0}) == 0,
              "copies are independent");
  Set D = std::move(B);
  pv::ensures(D.count(Elem{0}) == 1, "a moved set keeps its elements");
}
// ---- ordering -------------------------------------------------------------
PVC_CONTRACT(order_total) {
  anyUniverse();
  pv_note_bounded_("bitwise comparison loop: words restricted to 6 free bits");
  Set A, B;
  mk(A, "a", 2, true), mk(B, "b", 2, true);
  // the comparison is bit by bit: restrict to a few interesting positions
  uint64_t M0 = 0x8000000000000003, M1 = 0x8000000000000001;
  pv::assume(pv_and_((word(A, 0) & ~M0) == 0, (word(B, 0) & ~M0) == 0));
  pv::assume(pv_and_((word(A, 1) & ~M1) == 0, (word(B, 1) & ~M1) == 0));
  bool Lt = A < B, Gt = B < A;
  pv::ensures(!(Lt && Gt), "ordering is antisymmetric");
  pv::ensures((A == B) == (!Lt && !Gt), "ordering agrees with equality");
  bool Want = pv_or_(word(A, 1) < word(B, 1),
                     pv_and_(word(A, 1) == word(B, 1), word(A, 0) < word(B, 0)));
  pv::ensures(Lt == Want, "ordering depends only on the elements");
}
// ---- iteration: one step from an arbitrary position ------------------------
namespace {
template <typename It> void stepSpec(Set &S, It Begin, It End) {
  uint64_t R = anyPos();
  auto First = Begin.getPtr();
  bool None = same(S, Set());
  pv::ensures((Begin == End) == None, "iteration ends at once exactly if the set is empty");
  if (!pv_concrete_(None)) {
    pv::ensures(bit(S, First->first), "iteration starts at an element");
    pv::ensures(!pv_and_(bit(S, R), R < First->first),
                "iteration starts at the first element");
  }
}
/// From the iterator at element P, Next must be at the following element.
template <typename It> void followSpec(Set &S, uint64_t P, It Next, It End) {
  uint64_t R = anyPos();
  bool AtEnd = pv_concrete_(Next == End);
  if (AtEnd) {
    pv::ensures(!pv_and_(bit(S, R), R > P), "no element is skipped at the end");
  } else {
    uint64_t Q = Next.getPtr()->first;
    pv::ensures(pv_and_(bit(S, Q), Q > P), "the next position is an element");
    pv::ensures(!pv_and_(bit(S, R), pv_and_(R > P, R < Q)),
                "no element is skipped");
  }
}
} // namespace
PVC_CONTRACT(iterate_begin) {
  anyUniverse();
  Set S;
  mk(S, "s");
  if (pv::flip("const")) {
    const Set &C = S;
    stepSpec(S, C.begin(), C.end());
  } else
    stepSpec(S, S.begin(), S.end());
}
PVC_CONTRACT(iterate_step) {
  anyUniverse();
  Set S;
  mk(S, "s");
  uint64_t P = anyPos();
  pv::assume(bit(S, P));
  const Set &C = S;
  Set::const_iterator It(universe().right.find(P));
  It.setBits(S.Bits);
  switch (pv::choose(2, "how")) {
  case 0:
    ++It;
    followSpec(S, P, It, C.end());
    break;
  case 1: {
    auto Old = It++;
    pv::ensures(Old.getPtr()->first == P, "post-increment yields the old position");
    followSpec(S, P, It, C.end());
    break;
  }
  }
}
PVC_CONTRACT(iterate_advance) {
  anyUniverse();
  Set S;
  mk(S, "s");
  uint64_t P = anyPos();
  pv::assume(bit(S, P));
  const Set &C = S;
  Set::const_iterator It(universe().right.find(P));
  It.setBits(S.Bits);
  if (pv::flip("minus")) {
    auto Next = It;
    ++Next;
    pv::ensures(Next - It == 1, "neighbours have distance one");
    return;
  }
  if (pv::flip("plus")) {
    auto N = It + 1;
    pv::ensures(It.getPtr()->first == P, "advancing a copy leaves the iterator");
    followSpec(S, P, N, C.end());
  } else {
    It += 1;
    followSpec(S, P, It, C.end());
  }
}
PVC_CONTRACT(iterate_deref) {
  anyUniverse();
  name(0, true);
  Set S;
  mk(S, "s");
  pv::assume(bit(S, universe().Pos[0]));
  Set::const_iterator It(universe().right.find(universe().Pos[0]));
  pv::ensures(*It == Elem{0}, "an iterator yields the element at its position");
}
