#pragma once
#include <set>
namespace absl { template <typename... A> using btree_set = std::set<A...>; }
