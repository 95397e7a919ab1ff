// Bodies PVC uses for functions that only exist in shared libraries
// (libstdc++ / libLLVM / libc).  Each is an executable specification of the
// library function; they are listed as assumptions in the evidence.
#include <string>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

#include "llvm/ADT/SmallVector.h"

extern "C" {
int memcmp(const void *A, const void *B, size_t N) noexcept {
  auto *X = (const unsigned char *)A;
  auto *Y = (const unsigned char *)B;
  for (size_t I = 0; I < N; ++I)
    if (X[I] != Y[I])
      return X[I] < Y[I] ? -1 : 1;
  return 0;
}
int bcmp(const void *A, const void *B, size_t N) noexcept { return memcmp(A, B, N); }
size_t strlen(const char *S) noexcept {
  size_t N = 0;
  while (S[N])
    ++N;
  return N;
}
int strcmp(const char *A, const char *B) noexcept {
  while (*A && *A == *B)
    ++A, ++B;
  return (unsigned char)*A - (unsigned char)*B;
}
void *pv_rt_memchr(const void *S, int C, size_t N) __asm__("memchr");
void *pv_rt_memchr(const void *S, int C, size_t N) {
  auto *P = (const unsigned char *)S;
  for (size_t I = 0; I < N; ++I)
    if (P[I] == (unsigned char)C)
      return (void *)(P + I);
  return nullptr;
}
}

namespace llvm {
template <>
void *SmallVectorBase<uint32_t>::mallocForGrow(size_t MinSize, size_t TSize,
                                               size_t &NewCapacity) {
  size_t NewCap = 2 * capacity() + 1;
  NewCapacity = NewCap < MinSize ? MinSize : NewCap;
  return malloc(NewCapacity * TSize);
}
template <>
void SmallVectorBase<uint32_t>::grow_pod(void *FirstEl, size_t MinSize,
                                         size_t TSize) {
  size_t NewCap = 2 * capacity() + 1;
  NewCap = NewCap < MinSize ? MinSize : NewCap;
  void *NewElts;
  if (BeginX == FirstEl) {
    NewElts = malloc(NewCap * TSize);
    memcpy(NewElts, this->BeginX, size() * TSize);
  } else
    NewElts = realloc(this->BeginX, NewCap * TSize);
  this->BeginX = NewElts;
  this->Capacity = NewCap;
}
template <>
void *SmallVectorBase<uint64_t>::mallocForGrow(size_t MinSize, size_t TSize,
                                               size_t &NewCapacity) {
  size_t NewCap = 2 * capacity() + 1;
  NewCapacity = NewCap < MinSize ? MinSize : NewCap;
  return malloc(NewCapacity * TSize);
}
template <>
void SmallVectorBase<uint64_t>::grow_pod(void *FirstEl, size_t MinSize,
                                         size_t TSize) {
  size_t NewCap = 2 * capacity() + 1;
  NewCap = NewCap < MinSize ? MinSize : NewCap;
  void *NewElts;
  if (BeginX == FirstEl) {
    NewElts = malloc(NewCap * TSize);
    memcpy(NewElts, this->BeginX, size() * TSize);
  } else
    NewElts = realloc(this->BeginX, NewCap * TSize);
  this->BeginX = NewElts;
  this->Capacity = NewCap;
}
template class SmallVectorBase<uint32_t>;
template class SmallVectorBase<uint64_t>;

void *allocate_buffer(size_t Size, size_t Alignment) {
  return ::operator new(Size, std::align_val_t(Alignment));
}
void deallocate_buffer(void *Ptr, size_t Size, size_t Alignment) {
  ::operator delete(Ptr, std::align_val_t(Alignment));
}
} // namespace llvm

// ---- libstdc++: red-black tree, lists, hash policy ------------------------
#include <list>
#include <memory_resource>
#include <map>
#include <unordered_map>
namespace std {
static _Rb_tree_node_base *pvNext(_Rb_tree_node_base *X) {
  if (X->_M_right) {
    X = X->_M_right;
    while (X->_M_left)
      X = X->_M_left;
    return X;
  }
  auto *Y = X->_M_parent;
  while (X == Y->_M_right) {
    X = Y;
    Y = Y->_M_parent;
  }
  if (X->_M_right != Y)
    X = Y;
  return X;
}
static _Rb_tree_node_base *pvPrev(_Rb_tree_node_base *X) {
  if (X->_M_color == _S_red && X->_M_parent->_M_parent == X)
    return X->_M_right;
  if (X->_M_left) {
    auto *Y = X->_M_left;
    while (Y->_M_right)
      Y = Y->_M_right;
    return Y;
  }
  auto *Y = X->_M_parent;
  while (X == Y->_M_left) {
    X = Y;
    Y = Y->_M_parent;
  }
  return Y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *X) noexcept {
  return pvNext(X);
}
const _Rb_tree_node_base *
_Rb_tree_increment(const _Rb_tree_node_base *X) noexcept {
  return pvNext(const_cast<_Rb_tree_node_base *>(X));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *X) noexcept {
  return pvPrev(X);
}
const _Rb_tree_node_base *
_Rb_tree_decrement(const _Rb_tree_node_base *X) noexcept {
  return pvPrev(const_cast<_Rb_tree_node_base *>(X));
}
// a search tree without rebalancing: observably the same ordered container
void _Rb_tree_insert_and_rebalance(const bool Left, _Rb_tree_node_base *X,
                                   _Rb_tree_node_base *P,
                                   _Rb_tree_node_base &H) noexcept {
  X->_M_parent = P;
  X->_M_left = X->_M_right = nullptr;
  X->_M_color = _S_black;
  if (Left) {
    P->_M_left = X;
    if (P == &H) {
      H._M_parent = X;
      H._M_right = X;
    } else if (P == H._M_left)
      H._M_left = X;
  } else {
    P->_M_right = X;
    if (P == H._M_right)
      H._M_right = X;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *Z,
                                                 _Rb_tree_node_base &H) noexcept {
  auto *Nx = pvNext(Z);
  auto *Repl = Z->_M_left ? Z->_M_left : Z->_M_right;
  bool Two = Z->_M_left && Z->_M_right;
  bool First = H._M_left == Z;
  if (H._M_right == Z)
    H._M_right = First ? &H : pvPrev(Z);
  if (First)
    H._M_left = Nx; // the successor (or the header) becomes the leftmost node
  auto Swap = [&](_Rb_tree_node_base *Old, _Rb_tree_node_base *New) {
    if (H._M_parent == Old)
      H._M_parent = New;
    else if (Old->_M_parent->_M_left == Old)
      Old->_M_parent->_M_left = New;
    else
      Old->_M_parent->_M_right = New;
    if (New)
      New->_M_parent = Old->_M_parent;
  };
  if (!Two) {
    Swap(Z, Repl);
    return Z;
  }
  if (Nx->_M_parent != Z) {
    Swap(Nx, Nx->_M_right);
    Nx->_M_right = Z->_M_right;
    Nx->_M_right->_M_parent = Nx;
  }
  Swap(Z, Nx);
  Nx->_M_left = Z->_M_left;
  Nx->_M_left->_M_parent = Nx;
  return Z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const Pos) noexcept {
  _M_next = Pos;
  _M_prev = Pos->_M_prev;
  Pos->_M_prev->_M_next = this;
  Pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_next->_M_prev = _M_prev;
  _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base *const F,
                                  _List_node_base *const L) noexcept {
  if (this != L) {
    L->_M_prev->_M_next = this;
    F->_M_prev->_M_next = L;
    this->_M_prev->_M_next = F;
    auto *T = this->_M_prev;
    this->_M_prev = L->_M_prev;
    L->_M_prev = F->_M_prev;
    F->_M_prev = T;
  }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t N) const {
  std::size_t R = N < 13 ? 13 : N | 1;
  _M_next_resize = R;
  return R;
}
std::pair<bool, std::size_t>
_Prime_rehash_policy::_M_need_rehash(std::size_t Bkt, std::size_t Elt,
                                     std::size_t Ins) const {
  if (Elt + Ins <= _M_next_resize && Bkt > 1)
    return {false, 0};
  if (Elt + Ins <= Bkt && Bkt > 1) {
    _M_next_resize = Bkt;
    return {false, 0};
  }
  return {true, _M_next_bkt(2 * (Elt + Ins))};
}
} // namespace __detail
size_t _Hash_bytes(const void *P, size_t N, size_t Seed) {
  auto *C = (const unsigned char *)P;
  size_t H = Seed;
  for (size_t I = 0; I < N; ++I)
    H = H * 31 + C[I];
  return H;
}
} // namespace std

// std::string's members are only declared in the headers (extern template);
// their definitions come from the same header's template bodies.
template class std::basic_string<char>;

namespace std::pmr {
memory_resource::~memory_resource() = default;
} // namespace std::pmr
