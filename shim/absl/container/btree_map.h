#pragma once
#include <map>
namespace absl { template <typename... A> using btree_map = std::map<A...>; template <typename... A> using btree_multimap = std::multimap<A...>; }
