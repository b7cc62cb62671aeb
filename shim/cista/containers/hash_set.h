#pragma once
#include <unordered_set>
#include "cista/hash.h"
namespace cista {
namespace offset { template <typename T> using hash_set = std::unordered_set<T, cista::shim_hash<T>>; }
namespace raw { template <typename T> using hash_set = std::unordered_set<T, cista::shim_hash<T>>; }
}  // namespace cista
