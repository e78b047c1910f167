#ifndef SHIM_SPAN_H_
#define SHIM_SPAN_H_
#include <array>
#include <cstddef>
#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
#include <string>
#include "absl/base/macros_shim.h"
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*;
  using const_pointer = const T*;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  static constexpr size_type npos = ~size_type(0);
  constexpr Span() noexcept : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_type n) noexcept : p_(p), n_(n) {}
  template <std::size_t N>
  constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <typename C, typename = std::enable_if_t<
      !std::is_same_v<std::remove_cv_t<std::remove_reference_t<C>>, Span> &&
      !std::is_array_v<std::remove_reference_t<C>> &&
      std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>>,
      typename = decltype(std::declval<C&>().size()),
      typename X = T, typename = std::enable_if_t<!std::is_const_v<X> || true>>
  constexpr Span(C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template <typename C, typename X = T, typename = std::enable_if_t<
      std::is_const_v<X> &&
      !std::is_same_v<std::remove_cv_t<std::remove_reference_t<C>>, Span> &&
      !std::is_array_v<std::remove_reference_t<C>> &&
      std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[], T (*)[]>>,
      typename = decltype(std::declval<const C&>().size())>
  constexpr Span(const C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template <typename X = T, typename = std::enable_if_t<std::is_const_v<X>>>
  Span(std::initializer_list<value_type> v) noexcept : p_(v.begin()), n_(v.size()) {}
  constexpr pointer data() const noexcept { return p_; }
  constexpr size_type size() const noexcept { return n_; }
  constexpr size_type length() const noexcept { return n_; }
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr reference operator[](size_type i) const {
#ifdef _GLIBCXX_ASSERTIONS
    if (i >= n_) verif_check_failed("span index");
#endif
    return p_[i];
  }
  constexpr reference at(size_type i) const { if (i >= n_) verif_check_failed("span at"); return p_[i]; }
  constexpr reference front() const { return (*this)[0]; }
  constexpr reference back() const { return (*this)[n_ - 1]; }
  constexpr iterator begin() const noexcept { return p_; }
  constexpr iterator end() const noexcept { return p_ + n_; }
  constexpr const_iterator cbegin() const noexcept { return p_; }
  constexpr const_iterator cend() const noexcept { return p_ + n_; }
  reverse_iterator rbegin() const noexcept { return reverse_iterator(end()); }
  reverse_iterator rend() const noexcept { return reverse_iterator(begin()); }
  void remove_prefix(size_type k) { p_ += k; n_ -= k; }
  void remove_suffix(size_type k) { n_ -= k; }
  constexpr Span subspan(size_type pos = 0, size_type len = npos) const {
    if (pos > n_) verif_check_failed("subspan");
    return Span(p_ + pos, std::min(n_ - pos, len));
  }
  constexpr Span first(size_type len) const { if (len > n_) verif_check_failed("first"); return Span(p_, len); }
  constexpr Span last(size_type len) const { if (len > n_) verif_check_failed("last"); return Span(p_ + n_ - len, len); }
 private:
  pointer p_;
  size_type n_;
};
template <typename A, typename B>
bool SpanEq(Span<A> a, Span<B> b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false;
  return true;
}
template <typename T, typename U, typename = std::enable_if_t<std::is_same_v<std::remove_cv_t<T>, std::remove_cv_t<U>>>>
bool operator==(Span<T> a, Span<U> b) { return SpanEq(a, b); }
template <typename T, typename U, typename = std::enable_if_t<std::is_same_v<std::remove_cv_t<T>, std::remove_cv_t<U>>>>
bool operator!=(Span<T> a, Span<U> b) { return !SpanEq(a, b); }
template <typename T> bool operator==(const std::vector<std::remove_cv_t<T>>& a, Span<T> b) { return SpanEq(Span<const T>(a), b); }
template <typename T> bool operator==(Span<T> b, const std::vector<std::remove_cv_t<T>>& a) { return SpanEq(Span<const T>(a), b); }
template <typename T> constexpr Span<T> MakeSpan(T* p, std::size_t n) { return Span<T>(p, n); }
template <typename T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <typename T, std::size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* p, std::size_t n) { return Span<const T>(p, n); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <typename C> constexpr auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return Span<const std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <typename T, std::size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}  // namespace absl
#endif
