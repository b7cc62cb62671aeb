#pragma once
#include <unordered_map>
#include "cista/hash.h"
namespace cista {
namespace offset { template <typename K, typename V> using hash_map = std::unordered_map<K, V, cista::shim_hash<K>>; }
namespace raw { template <typename K, typename V> using hash_map = std::unordered_map<K, V, cista::shim_hash<K>>; }
}  // namespace cista
