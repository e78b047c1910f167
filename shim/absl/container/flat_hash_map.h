#pragma once
#include "absl/container/map_shim.h"
namespace absl {
template <typename K, typename V, typename...> using flat_hash_map = shim::Map<K, V, false>;
template <typename K, typename V, typename...> using node_hash_map = shim::Map<K, V, true>;
template <typename K, typename...> using flat_hash_set = shim::Set<K, false>;
template <typename K, typename...> using node_hash_set = shim::Set<K, true>;
}
