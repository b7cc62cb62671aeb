#pragma once
#include <cstdint>
#include <span>
#include <vector>
namespace cista {
template <typename Key, typename Value>
struct fws_multimap_shim {
  std::vector<std::vector<Value>> rows_;
  void emplace_back(std::vector<Value> const& v) { rows_.push_back(v); }
  auto& operator[](std::size_t i) { return rows_[i]; }
  auto const& operator[](std::size_t i) const { return rows_[i]; }
  std::size_t size() const { return rows_.size(); }
};
namespace offset { template <typename K, typename V> using fws_multimap = fws_multimap_shim<K, V>; }
namespace raw { template <typename K, typename V> using fws_multimap = fws_multimap_shim<K, V>; }
}  // namespace cista
