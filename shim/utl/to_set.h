#pragma once
#include <set>
namespace utl {
template <typename C, typename Fn>
auto to_set(C&& c, Fn&& fn) {
  std::set<std::decay_t<decltype(fn(*std::begin(c)))>> v;
  for (auto&& e : c) v.insert(fn(e));
  return v;
}
}
