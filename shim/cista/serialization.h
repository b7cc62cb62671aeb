#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include "cista/containers/ptr.h"
#include "cista/hash.h"
#include "cista/mmap.h"
namespace cista {
using offset_t = std::intptr_t;
enum class mode : unsigned { NONE = 0, WITH_INTEGRITY = 2, DEEP_CHECK = 4 };
template <typename T, mode M = mode::NONE, typename C>
T const* deserialize(C const&) { throw std::runtime_error{"serialization is not available"}; }
template <mode M = mode::NONE, typename C, typename T>
void serialize(C&, T const&) { throw std::runtime_error{"serialization is not available"}; }
template <typename T>
hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) noexcept { return h; }
template <typename T> struct buf { buf(T&&) {} };
}  // namespace cista
