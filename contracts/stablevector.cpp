// Contracts: include/phasar/Utils/StableVector.h
//
// Class invariant (inv): the blocks have the capacities 32, 32, 64, 128, ...;
// all blocks before BlockIdx are full; Start/End delimit block BlockIdx, Pos is
// one past its last element and is only equal to Start if the vector is empty;
// Size counts the elements; blocks after BlockIdx hold no elements; or there is
// no block at all and everything is zero.
// Every operation is applied to an arbitrary state that satisfies inv (states
// are fabricated, not built with the code under test); after it inv must hold
// again, the contents are those of the mathematical sequence, the addresses of
// the elements are unchanged, and the ghost state of elements and blocks (which
// slots are alive, which blocks are allocated with which capacity) is exact.
#include "pv/pv.h"

#include <algorithm>
#include <memory>
#include <utility>

#include "phasar/Utils/StableVector.h"

using namespace psr;

namespace {
// ---- ghost state -----------------------------------------------------------
uint64_t LiveEls, LiveBlocks;
/// Blocks are backed by storage for their first elements only (their capacity,
/// and so all addresses computed from it, is as claimed).
bool Thin;

/// An element that knows whether it is alive and where.
struct El {
  uint64_t V;
  const El *Self;
  El(uint64_t V = 0) : V(V) { born(); }
  El(const El &O) : V(O.V) {
    O.alive();
    born();
  }
  El(El &&O) noexcept : V(O.V) {
    O.alive();
    O.V = ~0ull;
    born();
  }
  El &operator=(const El &O) {
    O.alive();
    alive();
    V = O.V;
    return *this;
  }
  ~El() {
    alive();
    Self = nullptr;
    --LiveEls;
  }
  void born() {
    Self = this;
    ++LiveEls;
  }
  void alive() const {
    pv::ensures(Self == this, "only live elements are accessed");
  }
  bool isLive() const { return Self == this; }
  friend bool operator==(const El &A, const El &B) {
    A.alive();
    B.alive();
    return A.V == B.V;
  }
};

template <typename T> struct TrackAlloc {
  using value_type = T;
  TrackAlloc() = default;
  template <typename U> TrackAlloc(const TrackAlloc<U> &) {}
  static size_t real(size_t N) { return Thin && N > 2 ? 2 : N; }
  T *allocate(size_t N) {
    auto *P = static_cast<char *>(::malloc(16 + real(N) * sizeof(T)));
    std::memset(P, 0, 16 + real(N) * sizeof(T));
    *reinterpret_cast<size_t *>(P) = N;
    ++LiveBlocks;
    return reinterpret_cast<T *>(P + 16);
  }
  static size_t cap(const T *P) {
    return *reinterpret_cast<const size_t *>(reinterpret_cast<const char *>(P) -
                                             16);
  }
  void deallocate(T *P, size_t N) {
    pv::ensures(cap(P) == N, "blocks are freed with their own size");
    for (size_t I = 0; I < real(N); ++I)
      pv::ensures(!P[I].isLive(), "no live element is dropped");
    --LiveBlocks;
    ::free(reinterpret_cast<char *>(P) - 16);
  }
  friend bool operator==(const TrackAlloc &, const TrackAlloc &) { return true; }
  friend bool operator!=(const TrackAlloc &, const TrackAlloc &) { return false; }
};
using SV = StableVector<El, TrackAlloc<El>>;

size_t capOf(size_t Block) { return Block == 0 ? 32 : size_t(16) << Block; }
size_t blockOf(size_t I) {
  size_t B = 0, Total = 32;
  while (I >= Total) {
    ++B;
    Total += capOf(B);
  }
  return B;
}
size_t startOf(size_t Block) { return Block == 0 ? 0 : size_t(16) << Block; }
/// the slot of index I
El *slot(const SV &S, size_t I) {
  size_t B = blockOf(I);
  return S.Blocks[B] + (I - startOf(B));
}
uint64_t valueAt(size_t I) { return I * 3 + 1; }

/// An arbitrary state with N elements; MaxBlocks bounds the number of blocks.
void make(SV &S, size_t N, size_t Extra, size_t Salt = 0) {
  size_t BI = N ? blockOf(N - 1) : 0;
  size_t NB = N ? BI + 1 + Extra : Extra;
  TrackAlloc<El> A;
  for (size_t B = 0; B < NB; ++B)
    S.Blocks.push_back(A.allocate(capOf(B)));
  S.Size = N;
  S.BlockIdx = BI;
  if (NB) {
    S.Start = S.Blocks[BI];
    S.End = S.Start + capOf(BI);
    S.Pos = S.Start + (N - startOf(BI));
  }
  for (size_t I = 0; I < N; ++I)
    new (slot(S, I)) El(valueAt(I) + Salt);
}
struct State {
  size_t N, Extra;
  State(size_t MaxN, const char *Nm = "size") {
    pv_note_bounded_("vectors of at most four blocks (256 elements)");
    N = pv::choose(MaxN + 1, Nm);
    Extra = pv::choose(3, "spare blocks");
  }
};
/// sizes around all block boundaries
State boundary(const char *Nm = "size") {
  static const uint8_t Ns[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129};
  State S(0, Nm);
  S.N = Ns[pv::choose(sizeof(Ns), Nm)];
  return S;
}
void start() {
  LiveEls = LiveBlocks = 0;
  Thin = false;
}

void inv(const SV &S, size_t N) {
  pv::ensures(S.size() == N && S.empty() == (N == 0), "size() is exact");
  size_t NB = S.Blocks.size();
  if (NB == 0) {
    pv::ensures(N == 0 && S.BlockIdx == 0 && !S.Start && !S.Pos && !S.End,
                "inv: nothing allocated");
    return;
  }
  size_t BI = N ? blockOf(N - 1) : 0;
  pv::ensures(S.BlockIdx == BI && BI < NB, "inv: current block");
  for (size_t B = 0; B < NB; ++B)
    pv::ensures(TrackAlloc<El>::cap(S.Blocks[B]) == capOf(B),
                "inv: block capacities");
  pv::ensures(S.Start == S.Blocks[BI] && S.End == S.Start + capOf(BI) &&
                  S.Pos == S.Start + (N - startOf(BI)),
              "inv: current block delimited");
}
/// inv, and the contents are valueAt(0..N) + Salt
void holds(const SV &S, size_t N, size_t Salt = 0) {
  inv(S, N);
  for (size_t I = 0; I < N; ++I)
    pv::ensures(slot(S, I)->isLive() && slot(S, I)->V == valueAt(I) + Salt,
                "elements keep their values");
}
size_t blocks(const SV &S) { return S.Blocks.size(); }
struct Addrs {
  El *A[257];
  Addrs(const SV &S, size_t N) {
    for (size_t I = 0; I < N; ++I)
      A[I] = slot(S, I);
  }
  void same(const SV &S, size_t N) {
    bool Ok = true;
    for (size_t I = 0; I < N; ++I)
      Ok &= slot(S, I) == A[I];
    pv::ensures(Ok, "elements keep their addresses");
  }
};
void nothingLeft() {
  pv::ensures(LiveEls == 0, "every element is destroyed exactly once");
  pv::ensures(LiveBlocks == 0, "all blocks are freed");
}
} // namespace

PVC_CONTRACT(append) {
  start();
  State P(255);
  unsigned How = pv::choose(4, "how");
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    size_t NB = blocks(S);
    El X(valueAt(P.N));
    switch (How) {
    case 0: {
      El &R = S.emplace_back(valueAt(P.N));
      pv::ensures(&R == slot(S, P.N), "emplace_back returns the new element");
      break;
    }
    case 1:
      S.push_back(X);
      pv::ensures(X.V == valueAt(P.N), "the argument is copied");
      break;
    case 2:
      S.push_back(std::move(X));
      break;
    default:
      if (P.N == 0)
        pv_die_();
      // an element of the vector itself
      S.push_back(S[P.N - 1]);
      pv::ensures(slot(S, P.N)->V == valueAt(P.N - 1),
                  "an own element can be appended");
      slot(S, P.N)->V = valueAt(P.N);
    }
    holds(S, P.N + 1);
    A.same(S, P.N);
    pv::ensures(&S.back() == slot(S, P.N), "back() is the new element");
    pv::ensures(blocks(S) == (NB > blockOf(P.N) ? NB : NB + 1),
                "a block is allocated only if none is left");
    pv::ensures(LiveEls == P.N + 2, "one element is constructed");
    pv::ensures(LiveBlocks == blocks(S), "blocks owned by the vector");
  }
  nothingLeft();
}
PVC_CONTRACT(pop_one) {
  start();
  State P(256);
  if (P.N == 0)
    pv_die_();
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    size_t NB = blocks(S);
    if (pv::flip("pop_back_val")) {
      El X = S.pop_back_val();
      pv::ensures(X.V == valueAt(P.N - 1), "pop_back_val yields the last element");
    } else {
      S.pop_back();
    }
    holds(S, P.N - 1);
    A.same(S, P.N - 1);
    pv::ensures(LiveEls == P.N - 1 && blocks(S) == NB, "one element is destroyed");
  }
  nothingLeft();
}
PVC_CONTRACT(pop_many) {
  start();
  pv_note_bounded_("pop_back_n: vectors of at most three blocks");
  State P(130);
  if (P.Extra > 1)
    pv_die_();
  size_t K = pv::choose(P.N + 1, "n");
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    S.pop_back_n(K);
    holds(S, P.N - K);
    A.same(S, P.N - K);
    pv::ensures(LiveEls == P.N - K, "exactly n elements are destroyed");
  }
  nothingLeft();
}
PVC_CONTRACT(clear_and_shrink) {
  start();
  State P(256);
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    size_t NB = blocks(S);
    if (pv::flip("clear")) {
      S.clear();
      inv(S, 0);
      pv::ensures(LiveEls == 0, "clear destroys all elements");
      pv::ensures(blocks(S) == NB, "clear keeps the storage");
    } else {
      S.shrink_to_fit();
      holds(S, P.N);
      A.same(S, P.N);
      pv::ensures(LiveBlocks == blocks(S), "freed blocks are forgotten");
      if (P.N)
        pv::ensures(blocks(S) == blockOf(P.N - 1) + 1, "spare blocks are freed");
      // the vector is usable afterwards
      S.push_back(valueAt(P.N));
      holds(S, P.N + 1);
      A.same(S, P.N);
    }
  }
  nothingLeft();
}
PVC_CONTRACT(destroy) {
  start();
  State P(256);
  {
    SV S;
    make(S, P.N, P.Extra);
  }
  nothingLeft();
}
PVC_CONTRACT(copy) {
  start();
  State P(256);
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    {
      SV C = pv::flip("clone") ? S.clone() : SV(S);
      holds(C, P.N);
      for (size_t I = 0; I < P.N; ++I)
        pv::ensures(slot(C, I) != slot(S, I), "copies do not share elements");
      pv::ensures(C == S && !(C != S), "a copy is equal");
      pv::ensures(LiveEls == 2 * P.N, "every element is copied once");
      C.push_back(valueAt(P.N)); // a working vector
      holds(C, P.N + 1);
    }
    holds(S, P.N);
    A.same(S, P.N);
    pv::ensures(LiveEls == P.N && LiveBlocks == blocks(S),
                "the copy releases what it owns");
  }
  nothingLeft();
}
PVC_CONTRACT(move_construct) {
  start();
  State P(256);
  {
    SV S;
    make(S, P.N, P.Extra);
    Addrs A(S, P.N);
    SV M(std::move(S));
    holds(M, P.N);
    A.same(M, P.N);
    inv(S, 0);
    S.push_back(valueAt(0)); // the source is an empty vector
    holds(S, 1);
    holds(M, P.N);
  }
  nothingLeft();
}
PVC_CONTRACT(move_assign_swap) {
  start();
  State P = boundary("size 1"), Q = boundary("size 2");
  {
    SV S, T;
    make(S, P.N, P.Extra);
    make(T, Q.N, Q.Extra, 1000);
    Addrs A(S, P.N), B(T, Q.N);
    switch (pv::choose(4, "how")) {
    case 0:
      T = std::move(S);
      holds(T, P.N);
      A.same(T, P.N);
      inv(S, S.size()); // valid but unspecified
      break;
    case 1:
      S.swap(T);
      holds(T, P.N);
      A.same(T, P.N);
      holds(S, Q.N, 1000);
      B.same(S, Q.N);
      break;
    case 2: {
      using std::swap;
      swap(S, T);
      holds(T, P.N);
      holds(S, Q.N, 1000);
      B.same(S, Q.N);
      break;
    }
    default:
      S = std::move(S);
      holds(S, P.N);
      A.same(S, P.N);
    }
  }
  nothingLeft();
}
PVC_CONTRACT(subscript) {
  start();
  State P(256);
  if (P.N == 0)
    pv_die_();
  {
    SV S;
    make(S, P.N, 0);
    const SV &C = S;
    bool Ok = true;
    for (size_t I = 0; I < P.N; ++I)
      Ok &= &S[I] == slot(S, I) && &C[I] == slot(S, I);
    pv::ensures(Ok, "operator[] yields the element of that index");
    pv::ensures(&S.front() == slot(S, 0) && &C.front() == slot(S, 0), "front()");
    pv::ensures(&S.back() == slot(S, P.N - 1) && &C.back() == slot(S, P.N - 1),
                "back()");
  }
  nothingLeft();
}
PVC_CONTRACT(iterate) {
  start();
  State P(256);
  {
    SV S;
    make(S, P.N, P.Extra);
    const SV &C = S;
    size_t I = 0;
    switch (pv::choose(4, "how")) {
    case 0:
      for (El &E : S)
        pv::ensures(&E == slot(S, I++), "iteration yields the elements in order");
      break;
    case 1:
      for (const El &E : C)
        pv::ensures(&E == slot(S, I++), "iteration yields the elements in order");
      break;
    case 2:
      for (auto It = S.cbegin(), E = S.cend(); It != E; It++)
        pv::ensures(It.operator->() == slot(S, I++),
                    "iteration yields the elements in order");
      break;
    default: {
      SV::const_iterator It = S.begin(), E = S.end();
      for (; !(It == E); ++It)
        pv::ensures(&*It == slot(S, I++), "iteration yields the elements in order");
    }
    }
    pv::ensures(I == P.N, "iteration yields all elements");
  }
  nothingLeft();
}
PVC_CONTRACT(equality) {
  start();
  State P(256);
  {
    SV S, T;
    make(S, P.N, P.Extra);
    switch (pv::choose(3, "other")) {
    case 0:
      make(T, P.N, P.N % 2);
      pv::ensures(S == T && !(S != T), "equal contents compare equal");
      break;
    case 1: { // differs in one element, every position
      if (P.Extra)
        pv_die_();
      make(T, P.N, 0);
      bool Ok = true;
      for (size_t I = 0; I < P.N; ++I) {
        if (I % 16 > 1 && I % 16 < 15)
          continue;
        slot(T, I)->V++;
        Ok &= !(S == T) && S != T && !(T == S);
        slot(T, I)->V--;
      }
      pv::ensures(Ok, "a different element is noticed");
      break;
    }
    default: // a proper prefix
      if (P.N == 0)
        pv_die_();
      make(T, P.N - 1, 0);
      pv::ensures(!(S == T) && S != T && !(T == S), "a prefix is not equal");
    }
  }
  nothingLeft();
}

// (Not run natively: the sanitizers poison blocks up to their claimed capacity.)
#ifndef PV_NATIVE
// ---- any number of blocks ---------------------------------------------------
namespace {
constexpr size_t MaxBlock = 54; // 2^58 elements of 16 bytes
/// A vector whose last block is number BI (any), without elements.
void makeThin(SV &S, size_t BI, size_t Spare) {
  Thin = true;
  TrackAlloc<El> A;
  for (size_t B = 0; B <= BI + Spare; ++B)
    S.Blocks.push_back(A.allocate(capOf(B)));
  S.BlockIdx = BI;
  S.Start = S.Blocks[BI];
  S.End = S.Start + capOf(BI);
}
void dropThin(SV &S) {
  TrackAlloc<El> A;
  for (El *B : S.Blocks)
    A.deallocate(B, TrackAlloc<El>::cap(B));
  S.Blocks.clear();
  S.Start = S.Pos = S.End = nullptr;
  S.Size = S.BlockIdx = 0;
}
} // namespace
PVC_CONTRACT(subscript_any_index) {
  start();
  SV S;
  Thin = true;
  for (size_t B = 0; B <= MaxBlock; ++B)
    S.Blocks.push_back(reinterpret_cast<El *>((B + 1) << 40));
  size_t L = 4 + pv::choose(MaxBlock + 1, "log2 of the index");
  size_t I = pv::any<size_t>("index");
  El *Want;
  if (L == 4) {
    pv::assume(I < 32);
    Want = S.Blocks[0] + I;
  } else {
    pv::assume(I >= (size_t(1) << L) && I < (size_t(2) << L));
    Want = S.Blocks[L - 4] + (I - (size_t(1) << L));
  }
  pv::ensures(&S[I] == Want && &static_cast<const SV &>(S)[I] == Want,
              "operator[] yields the slot of that index, for every index");
  S.Blocks.clear();
}
PVC_CONTRACT(grow_any_block) {
  start();
  {
    SV S;
    size_t BI = pv::choose(MaxBlock, "block"), Spare = pv::choose(3, "spare");
    makeThin(S, BI, Spare);
    S.Size = startOf(BI) + capOf(BI); // all blocks full
    S.Pos = S.End;
    El &R = S.emplace_back(5);
    inv(S, startOf(BI + 1) + 1);
    pv::ensures(&R == S.Blocks[BI + 1] && R.V == 5, "the new block's first slot");
    pv::ensures(blocks(S) == BI + 1 + (Spare ? Spare : 1),
                "a block is allocated only if none is left");
    S.pop_back();
    inv(S, startOf(BI + 1));
    dropThin(S);
  }
  nothingLeft();
}
PVC_CONTRACT(within_any_block) {
  start();
  {
    SV S;
    size_t BI = pv::choose(MaxBlock, "block");
    makeThin(S, BI, 0);
    S.Size = startOf(BI) + 1;
    S.Pos = S.Start + 1;
    new (S.Start) El(4);
    El &R = S.emplace_back(5);
    inv(S, startOf(BI) + 2);
    pv::ensures(&R == S.Start + 1, "the next slot");
    if (pv::flip("pop both at once")) {
      S.pop_back_n(2);
    } else {
      S.pop_back();
      inv(S, startOf(BI) + 1);
      pv::ensures(S.Start[0].V == 4, "other elements stay");
      S.pop_back();
    }
    inv(S, startOf(BI));
    dropThin(S);
  }
  nothingLeft();
}
PVC_CONTRACT(iterator_any_block) {
  start();
  {
    SV S;
    size_t BI = pv::choose(MaxBlock, "block"), Last = pv::choose(2, "elements");
    makeThin(S, BI, 1);
    S.Size = startOf(BI) + 1 + Last;
    S.Pos = S.Start + 1 + Last;
    // one step from the last element of each block before BI, and from the
    // last element
    auto It = S.begin();
    pv::ensures(&*It == S.Blocks[0], "begin");
    for (size_t B = 0; B < BI; ++B) {
      pv::ensures(It.ItEnd == S.Blocks[B] + capOf(B), "the block's end");
      It.It = It.ItEnd - 1;
      ++It;
      pv::ensures(&*It == S.Blocks[B + 1], "continues with the next block");
    }
    pv::ensures(It.ItEnd == S.Pos, "the last block ends at the last element");
    It.It = S.Pos - 1;
    ++It;
    pv::ensures(It == S.end(), "ends after the last element");
    dropThin(S);
  }
  nothingLeft();
}
PVC_CONTRACT(shrink_any_block) {
  start();
  {
    SV S;
    size_t BI = pv::choose(MaxBlock, "block"), Spare = pv::choose(4, "spare");
    makeThin(S, BI, Spare);
    S.Size = startOf(BI) + 1;
    S.Pos = S.Start + 1;
    S.shrink_to_fit(); // deallocate() checks the sizes
    inv(S, startOf(BI) + 1);
    pv::ensures(blocks(S) == BI + 1 && LiveBlocks == BI + 1,
                "exactly the spare blocks are freed");
    dropThin(S);
  }
  nothingLeft();
}
#endif
