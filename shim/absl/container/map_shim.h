#ifndef SHIM_MAP_H_
#define SHIM_MAP_H_
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/base/macros_shim.h"
// Unordered containers with linear lookup.  kStable = node semantics; without
// it, growth relocates every element as the real flat containers do, so that
// stale references are caught.  Iteration order is insertion order, or its
// reverse with VERIF_MAP_REVERSE (the real order is unspecified).
namespace absl { namespace shim {
template <typename V> struct KeyOfSet { template <typename T> static const V& key(const T& v) { return v; } };
struct KeyOfMap { template <typename T> static const auto& key(const T& v) { return v.first; } };
template <typename V, typename KeyOf, typename K, bool kStable>
class Table {
 public:
  using value_type = V;
  using key_type = K;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  using Node = std::unique_ptr<V>;
  template <typename T>
  class It {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = V; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    It() {}
    It(const std::vector<Node>* v, std::size_t i) : v_(v), i_(i) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> It(const It<U>& o) : v_(o.v_), i_(o.i_) {}
#ifdef VERIF_MAP_REVERSE
    std::size_t at() const { return v_->size() - 1 - i_; }
#else
    std::size_t at() const { return i_; }
#endif
    T& operator*() const { if (i_ >= v_->size()) verif_check_failed("dereference of a container end iterator"); return *(*v_)[at()]; }
    T* operator->() const { return &**this; }
    It& operator++() { ++i_; return *this; }
    It operator++(int) { It r = *this; ++i_; return r; }
    friend bool operator==(const It& a, const It& b) { return a.i_ == b.i_; }
    friend bool operator!=(const It& a, const It& b) { return a.i_ != b.i_; }
    const std::vector<Node>* v_ = nullptr;
    std::size_t i_ = 0;
  };
  using const_iterator = It<const V>;
  using iterator = std::conditional_t<std::is_same_v<V, K>, It<const V>, It<V>>;
  Table() {}
  Table(const Table& o) { Copy(o); }
  Table(Table&& o) noexcept : v_(std::move(o.v_)), cap_(o.cap_) { o.v_.clear(); o.cap_ = 0; }
  Table& operator=(const Table& o) { if (this != &o) { clear(); Copy(o); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { v_ = std::move(o.v_); cap_ = o.cap_; o.v_.clear(); o.cap_ = 0; } return *this; }
  Table(std::initializer_list<V> l) { for (auto& x : l) insert(x); }
  template <typename I, typename = typename std::iterator_traits<I>::value_type> Table(I b, I e) { for (; b != e; ++b) insert(V(*b)); }
  Table& operator=(std::initializer_list<V> l) { clear(); for (auto& x : l) insert(x); return *this; }
  iterator begin() { return iterator(&v_, 0); }
  iterator end() { return iterator(&v_, v_.size()); }
  const_iterator begin() const { return const_iterator(&v_, 0); }
  const_iterator end() const { return const_iterator(&v_, v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  bool empty() const { return v_.empty(); }
  size_type size() const { return v_.size(); }
  size_type capacity() const { return cap_; }
  void clear() { v_.clear(); cap_ = 0; }
  void reserve(size_type n) { if (n > cap_) Grow(n); }
  template <typename Q> iterator find(const Q& k) { return iterator(&v_, Idx(k)); }
  template <typename Q> const_iterator find(const Q& k) const { return const_iterator(&v_, Idx(k)); }
  iterator find(const K& k) { return iterator(&v_, Idx(k)); }
  const_iterator find(const K& k) const { return const_iterator(&v_, Idx(k)); }
  template <typename Q> bool contains(const Q& k) const { return Idx(k) != v_.size(); }
  bool contains(const K& k) const { return Idx(k) != v_.size(); }
  template <typename Q> size_type count(const Q& k) const { return contains(k); }
  size_type count(const K& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const V& v) { std::size_t i = Idx(KeyOf::key(v)); if (i != v_.size()) return {iterator(&v_, i), false}; return {Push(std::make_unique<V>(v)), true}; }
  std::pair<iterator, bool> insert(V&& v) { std::size_t i = Idx(KeyOf::key(v)); if (i != v_.size()) return {iterator(&v_, i), false}; return {Push(std::make_unique<V>(std::move(v))), true}; }
  template <typename I, typename = typename std::iterator_traits<I>::value_type> void insert(I b, I e) { for (; b != e; ++b) insert(V(*b)); }
  void insert(std::initializer_list<V> l) { for (auto& x : l) insert(x); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { auto n = std::make_unique<V>(std::forward<A>(a)...); std::size_t i = Idx(KeyOf::key(*n)); if (i != v_.size()) return {iterator(&v_, i), false}; return {Push(std::move(n)), true}; }
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, const_iterator> && !std::is_convertible_v<const Q&, iterator>>>
  size_type erase(const Q& k) { std::size_t i = Idx(k); if (i == v_.size()) return 0; v_.erase(v_.begin() + i); return 1; }
  size_type erase(const K& k) { std::size_t i = Idx(k); if (i == v_.size()) return 0; v_.erase(v_.begin() + i); return 1; }
  void erase(const_iterator it) { EraseAt(it.i_); }
  template <typename X = iterator, typename = std::enable_if_t<!std::is_same_v<X, const_iterator>>> void erase(iterator it) { EraseAt(it.i_); }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (auto& x : a.v_) { std::size_t i = b.Idx(KeyOf::key(*x)); if (i == b.v_.size() || !(*b.v_[i] == *x)) return false; }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }
  void swap(Table& o) { std::swap(v_, o.v_); std::swap(cap_, o.cap_); }
  template <typename P> size_type EraseIf(P p) { size_type n = 0; for (std::size_t i = 0; i < v_.size();) if (p(*v_[i])) { v_.erase(v_.begin() + i); n++; } else i++; return n; }
 protected:
  void EraseAt(std::size_t i) {
    if (i >= v_.size()) verif_check_failed("erase of a container end iterator");
#ifdef VERIF_MAP_REVERSE
    i = v_.size() - 1 - i;
#endif
    v_.erase(v_.begin() + i);
  }
  template <typename Q> std::size_t Idx(const Q& k) const {
    for (std::size_t i = 0; i < v_.size(); i++) if (KeyOf::key(*v_[i]) == k) {
#ifdef VERIF_MAP_REVERSE
      return v_.size() - 1 - i;
#else
      return i;
#endif
    }
    return v_.size();
  }
  void Grow(size_type n) {
    cap_ = n;
    if (!kStable) for (auto& x : v_) x = Node(new V(std::move(*x)));
    v_.reserve(n);
  }
  iterator Push(Node n) {
    if (v_.size() >= cap_) Grow(cap_ == 0 ? 1 : cap_ * 2 + 1);
    v_.push_back(std::move(n));
#ifdef VERIF_MAP_REVERSE
    return iterator(&v_, 0);
#else
    return iterator(&v_, v_.size() - 1);
#endif
  }
  V& Raw(std::size_t i) {
#ifdef VERIF_MAP_REVERSE
    return *v_[v_.size() - 1 - i];
#else
    return *v_[i];
#endif
  }
  void Copy(const Table& o) { cap_ = o.cap_; v_.reserve(o.v_.size()); for (auto& x : o.v_) v_.push_back(std::make_unique<V>(*x)); }
  std::vector<Node> v_;
  size_type cap_ = 0;
};
template <typename K, typename V, bool kStable>
class Map : public Table<std::pair<const K, V>, KeyOfMap, K, kStable> {
  using B = Table<std::pair<const K, V>, KeyOfMap, K, kStable>;
 public:
  using B::B;
  using mapped_type = V;
  using iterator = typename B::iterator;
  Map() {}
  Map(std::initializer_list<typename B::value_type> l) : B(l) {}
  template <typename Q = K> V& operator[](const Q& k) { return try_emplace(k).first->second; }
  V& operator[](K&& k) { return try_emplace(std::move(k)).first->second; }
  template <typename Q> V& at(const Q& k) { auto i = this->find(k); if (i == this->end()) verif_check_failed("map at"); return i->second; }
  template <typename Q> const V& at(const Q& k) const { auto i = this->find(k); if (i == this->end()) verif_check_failed("map at"); return i->second; }
  template <typename Q, typename... A>
  std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    std::size_t i = this->Idx(k);
    if (i != this->v_.size()) return {iterator(&this->v_, i), false};
    return {this->Push(std::make_unique<typename B::value_type>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...))), true};
  }
  template <typename Q, typename M>
  std::pair<iterator, bool> insert_or_assign(Q&& k, M&& m) {
    auto r = try_emplace(std::forward<Q>(k), std::forward<M>(m));
    if (!r.second) r.first->second = std::forward<M>(m);
    return r;
  }
};
template <typename K, bool kStable>
class Set : public Table<K, KeyOfSet<K>, K, kStable> {
  using B = Table<K, KeyOfSet<K>, K, kStable>;
 public:
  using B::B;
  Set() {}
  Set(std::initializer_list<K> l) : B(l) {}
};
}  // namespace shim
template <typename V, typename KO, typename K, bool S, typename P>
std::size_t erase_if(shim::Table<V, KO, K, S>& t, P p) { return t.EraseIf(p); }
}  // namespace absl
#endif
