// Contracts: include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
//
// State: an arbitrary sequence of at most K call sites with arbitrary values
// (every push/pop history ends in such a state, which the contracts show
// inductively), stored at an arbitrary offset in the deque.
#include "pv/pv.h"

#include <cstdint>
#include <deque>

#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"

using namespace psr;

namespace {
using U = uint64_t;
template <unsigned K> struct Spec {
  using CS = CallStringCTX<U, K>;
  struct Seq {
    U E[K + 2];
    size_t N = 0;
  };
  static Seq make(CS &C, const char *Nm, bool Shift = true) {
    pv_note_bounded_("limits k of 0, 1, 2, 3 and 5");
    Seq S;
    if (Shift && pv::flip("shifted")) {
      // popped elements leave the deque shifted
      C.CallString.push_back(0);
      C.CallString.push_back(0);
      C.CallString.pop_front();
      C.CallString.pop_front();
    }
    S.N = pv::choose(K + 1, "length");
    for (size_t I = 0; I < S.N; ++I) {
      S.E[I] = pv::any<U>(Nm);
      C.CallString.push_back(S.E[I]);
    }
    return S;
  }
  static void is(const CS &C, const U *E, size_t N, const char *L) {
    pv::ensures(C.size() == N && C.empty() == (N == 0), "size and empty");
    pv::ensures(C.CallString.size() == N, L);
    for (size_t I = 0; I < N; ++I)
      pv::ensures(C.CallString[I] == E[I], L);
  }
  static void push() {
    CS C;
    Seq S = make(C, "call site");
    CS Before(C);
    U X = pv::any<U>("pushed");
    C.push_back(X);
    S.E[S.N] = X;
    size_t Drop = S.N == K;
    is(C, S.E + Drop, S.N + 1 - Drop,
       "push_back: the most recent k call sites, in order");
    is(Before, S.E, S.N, "copies are independent");
    if (!Drop) {
      pv::ensures(C.pop_back() == X, "pop_back yields the last call site");
      is(C, S.E, S.N, "pop_back undoes push_back");
      pv::ensures(C == Before, "pop_back undoes push_back");
    } else if (K > 0) {
      pv::ensures(C.pop_back() == X, "pop_back yields the last call site");
      is(C, S.E + 1, S.N - 1, "pop_back removes the last call site only");
    }
  }
  static void pop() {
    CS C;
    Seq S = make(C, "call site");
    U R = C.pop_back();
    if (S.N == 0) {
      pv::ensures(R == U(), "popping an empty call string yields no call site");
      is(C, S.E, 0, "an empty call string stays empty");
    } else {
      pv::ensures(R == S.E[S.N - 1], "pop_back yields the last call site");
      is(C, S.E, S.N - 1, "pop_back removes the last call site only");
    }
  }
  static void compare() {
    CS A, B;
    Seq S = make(A, "a"), T = make(B, "b", false);
    bool Eq = S.N == T.N;
    for (size_t I = 0; I < S.N && I < T.N; ++I)
      Eq = pv_and_(Eq, S.E[I] == T.E[I]);
    bool Less = S.N < T.N;
    for (size_t I = S.N < T.N ? S.N : T.N; I-- > 0;)
      Less = pv_or_(S.E[I] < T.E[I], pv_and_(S.E[I] == T.E[I], Less));
    pv::ensures((A == B) == Eq, "equality is equality of the sequences");
    pv::ensures((A != B) == !Eq, "inequality is its negation");
    pv::ensures(A.isEqual(B) == Eq && A.isDifferent(B) == !Eq, "isEqual");
    pv::ensures((A < B) == Less, "the order is the order of the sequences");
  }
  static void hash() {
    CS A, B;
    Seq S = make(A, "a");
    // the same sequence after another history
    for (unsigned I = 0; I < K; ++I)
      B.push_back(pv::any<U>("old"));
    if (S.N != K || S.N % 2 == 0)
      for (unsigned I = 0; I < K; ++I)
        B.pop_back();
    for (size_t I = 0; I < S.N; ++I)
      B.push_back(S.E[I]);
    pv::ensures(A == B, "call strings are equal whatever their history");
    pv::ensures(std::hash<CS>{}(A) == std::hash<CS>{}(B),
                "equal call strings hash equally");
  }
};
} // namespace
#define ALL(K)                                                                 \
  PVC_CONTRACT(push_##K) { Spec<K>::push(); }                                  \
  PVC_CONTRACT(pop_##K) { Spec<K>::pop(); }                                    \
  PVC_CONTRACT(compare_##K) { Spec<K>::compare(); }                            \
  PVC_CONTRACT(hash_##K) { Spec<K>::hash(); }
ALL(0)
ALL(1)
ALL(2)
ALL(3)
ALL(5)
PVC_CONTRACT(initial) {
  U A = pv::any<U>("a"), B = pv::any<U>("b"), X = pv::any<U>("x");
  U E[3] = {A, B, X};
  CallStringCTX<U, 2> D;
  Spec<2>::is(D, nullptr, 0, "initially empty");
  CallStringCTX<U, 2> C{A, B};
  Spec<2>::is(C, E, 2, "the given call sites");
  C.push_back(X);
  Spec<2>::is(C, E + 1, 2, "the most recent ones");
}
