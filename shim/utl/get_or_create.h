#pragma once
namespace utl {
template <typename C, typename K, typename F>
auto& get_or_create(C& m, K const& key, F&& f) {
  auto it = m.find(key);
  if (it != m.end()) return it->second;
  return m[key] = f();
}
}
