#pragma once
#include <cstdint>
#include <functional>
#include <string_view>
#include <tuple>
#include <type_traits>
namespace cista {
using hash_t = std::uint64_t;
constexpr hash_t BASE_HASH = 14695981039346656037ULL;
template <typename... Ts>
constexpr hash_t hash_combine(hash_t h, Ts... v) noexcept {
  ((h ^= static_cast<hash_t>(v), h *= 1099511628211ULL), ...);
  return h;
}
constexpr hash_t hash(std::string_view s, hash_t h = BASE_HASH) noexcept {
  for (auto c : s) h = hash_combine(h, static_cast<unsigned char>(c));
  return h;
}
template <typename T>
struct shim_hash {
  std::size_t operator()(T const& t) const {
    if constexpr (requires { std::hash<T>{}(t); }) return std::hash<T>{}(t);
    else if constexpr (requires { t.hash(); }) return t.hash();
    else if constexpr (requires { std::tuple_size<T>::value; })
      return std::apply([](auto const&... x) {
        return static_cast<std::size_t>(hash_combine(BASE_HASH, shim_hash<std::decay_t<decltype(x)>>{}(x)...)); }, t);
    else if constexpr (requires { t.cista_members(); })
      return shim_hash<std::decay_t<decltype(const_cast<T&>(t).cista_members())>>{}(const_cast<T&>(t).cista_members());
    else return hash(std::string_view{reinterpret_cast<char const*>(&t), sizeof(T)});
  }
};
}  // namespace cista
