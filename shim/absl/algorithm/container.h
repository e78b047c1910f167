#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
#define SHIM_C(name, stdname) template <typename C, typename... A> auto c_##name(C&& c, A&&... a) { using std::begin; using std::end; return std::stdname(begin(c), end(c), std::forward<A>(a)...); }
SHIM_C(all_of, all_of) SHIM_C(any_of, any_of) SHIM_C(none_of, none_of) SHIM_C(find, find) SHIM_C(find_if, find_if) SHIM_C(find_if_not, find_if_not) SHIM_C(count, count) SHIM_C(count_if, count_if) SHIM_C(sort, sort) SHIM_C(stable_sort, stable_sort) SHIM_C(fill, fill) SHIM_C(accumulate, accumulate) SHIM_C(max_element, max_element) SHIM_C(min_element, min_element) SHIM_C(is_sorted, is_sorted) SHIM_C(binary_search, binary_search) SHIM_C(lower_bound, lower_bound) SHIM_C(upper_bound, upper_bound) SHIM_C(copy, copy) SHIM_C(transform, transform) SHIM_C(for_each, for_each) SHIM_C(reverse, reverse) SHIM_C(iota, iota) SHIM_C(replace, replace) SHIM_C(copy_if, copy_if) SHIM_C(adjacent_find, adjacent_find) SHIM_C(unique, unique)
#undef SHIM_C
template <typename C, typename V> bool c_linear_search(const C& c, V&& v) { for (auto& x : c) if (x == v) return true; return false; }
template <typename C, typename V> bool c_contains(const C& c, V&& v) { return c_linear_search(c, v); }
template <typename A, typename B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
}
