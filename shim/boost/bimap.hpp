// Contract of boost::bimap as phasar uses it: an injective finite map
//   T  <->  {0 .. N-1},  insert(x, N) extends it.
// The map is abstract: N is arbitrary; finitely many named keys have arbitrary
// distinct positions (or are unknown); all other positions belong to keys the
// contract does not name.
#pragma once
#include "pv/pv.h"
#include <utility>
namespace boost {
namespace bimaps {
template <typename T, typename H = void> struct unordered_set_of {
  using type = T;
};
} // namespace bimaps
template <typename A, typename B> class bimap {
  using T = typename A::type;

public:
  static constexpr unsigned MaxNamed = 4;
  unsigned NNamed = 0;
  T Key[MaxNamed];
  bool Known[MaxNamed];
  size_t Pos[MaxNamed];
  size_t N = 0;

  struct LPair {
    T first;
    size_t second;
  };
  struct RPair {
    size_t first;
    T second;
  };
  template <typename P> struct It {
    P V{};
    bool End = true;
    bimap *M = nullptr;
    It() = default;
    It(std::nullptr_t) {}
    const P *operator->() const {
      pv::ensures(!End, "the end iterator is not dereferenced");
      return &V;
    }
    const P &operator*() const { return *operator->(); }
    bool operator==(const It &O) const {
      return pv_and_(End == O.End,
                     pv_or_(End, pv_and_(V.first == O.V.first, true)));
    }
    bool operator!=(const It &O) const { return !(*this == O); }
    /// iteration order is arbitrary: any element or the end
    It &operator++() {
      pv::ensures(!End, "the end iterator is not advanced");
      *this = M->anyIt((P *)nullptr);
      return *this;
    }
    It operator++(int) {
      It R = *this;
      ++*this;
      return R;
    }
  };
  It<RPair> anyIt(RPair *) { return right.find(pv::any<uint64_t>("next")); }
  It<LPair> anyIt(LPair *) {
    It<LPair> R;
    pv_abort_path_("iteration over all keys");
    return R;
  }
  struct Left {
    bimap *M;
    using iterator = It<LPair>;
    iterator find(const T &X) const {
      iterator R;
      R.M = M;
      for (unsigned I = 0; I < M->NNamed; ++I)
        if (M->Key[I] == X) {
          R.End = !M->Known[I];
          R.V = {X, M->Pos[I]};
          return R;
        }
      pv_abort_path_("lookup of a key the contract does not name");
      return R;
    }
    iterator end() const { return {}; }
    iterator begin() const { return M->anyIt((LPair *)nullptr); }
    size_t size() const { return M->N; }
    void insert(const std::pair<T, size_t> &P) {
      for (unsigned I = 0; I < M->NNamed; ++I) {
        if (M->Key[I] == P.first) {
          if (M->Known[I])
            return;
          pv::ensures(P.second >= M->N, "a new element gets a fresh position");
          pv::ensures(P.second == M->N, "positions are assigned consecutively");
          M->Known[I] = true;
          M->Pos[I] = P.second;
          ++M->N;
          return;
        }
      }
      pv_abort_path_("insertion of a key the contract does not name");
    }
  };
  struct Right {
    bimap *M;
    using iterator = It<RPair>;
    using const_iterator = iterator;
    iterator find(size_t P) const {
      iterator R;
      R.M = M;
      R.End = !(P < M->N);
      if (R.End)
        return R;
      R.V.first = P;
      for (unsigned I = 0; I < M->NNamed; ++I)
        if (M->Known[I] && M->Pos[I] == P) {
          R.V.second = M->Key[I];
          return R;
        }
      R.V.second = T::unnamed(P);
      return R;
    }
    iterator end() const { return {}; }
  };
  using left_iterator = It<LPair>;
  using right_iterator = It<RPair>;
  using left_const_iterator = It<LPair>;
  using right_const_iterator = It<RPair>;
  Left left{this};
  Right right{this};
  bimap() = default;
  bimap(const bimap &) = delete;
};
} // namespace boost
