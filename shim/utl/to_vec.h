#pragma once
#include <iterator>
#include <type_traits>
#include <vector>
namespace utl {
template <typename C, typename Fn>
auto to_vec(C&& c, Fn&& fn) {
  std::vector<std::decay_t<decltype(fn(*std::begin(c)))>> v;
  for (auto&& e : c) v.emplace_back(fn(e));
  return v;
}
template <typename It, typename Fn>
auto to_vec(It b, It e, Fn&& fn) {
  std::vector<std::decay_t<decltype(fn(*b))>> v;
  for (; b != e; ++b) v.emplace_back(fn(*b));
  return v;
}
template <typename C>
auto to_vec(C&& c) {
  std::vector<std::decay_t<decltype(*std::begin(c))>> v;
  for (auto&& e : c) v.emplace_back(e);
  return v;
}
}
