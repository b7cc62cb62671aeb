#pragma once
#include <tuple>
#include <type_traits>
#include <utility>
namespace cista {
struct shim_any { template <typename T> constexpr operator T() const; };
template <typename T, std::size_t... I>
constexpr bool shim_ok(std::index_sequence<I...>) { return requires { T{((void)I, shim_any{})...}; }; }
template <typename T, std::size_t N = 16>
constexpr std::size_t shim_arity() {
  if constexpr (N == 0) return 0;
  else if constexpr (shim_ok<T>(std::make_index_sequence<N>{})) return N;
  else return shim_arity<T, N - 1>();
}
template <typename T>
auto shim_tie(T const& t) {
  constexpr auto n = shim_arity<T>();
  if constexpr (n == 1) { auto const& [a0] = t; return std::tie(a0); }
  else if constexpr (n == 2) { auto const& [a0,a1] = t; return std::tie(a0,a1); }
  else if constexpr (n == 3) { auto const& [a0,a1,a2] = t; return std::tie(a0,a1,a2); }
  else if constexpr (n == 4) { auto const& [a0,a1,a2,a3] = t; return std::tie(a0,a1,a2,a3); }
  else if constexpr (n == 5) { auto const& [a0,a1,a2,a3,a4] = t; return std::tie(a0,a1,a2,a3,a4); }
  else if constexpr (n == 6) { auto const& [a0,a1,a2,a3,a4,a5] = t; return std::tie(a0,a1,a2,a3,a4,a5); }
  else if constexpr (n == 7) { auto const& [a0,a1,a2,a3,a4,a5,a6] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6); }
  else if constexpr (n == 8) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7); }
  else if constexpr (n == 9) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8); }
  else if constexpr (n == 10) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); }
  else if constexpr (n == 11) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10); }
  else if constexpr (n == 12) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11); }
  else if constexpr (n == 13) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12); }
  else if constexpr (n == 14) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13); }
  else if constexpr (n == 15) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14); }
  else if constexpr (n == 16) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15); }
}
template <typename A, typename B>
bool cista_shim_eq(A const& a, B const& b) { return shim_tie(a) == shim_tie(b); }
template <typename A, typename B>
bool cista_shim_lt(A const& a, B const& b) { return shim_tie(a) < shim_tie(b); }
}  // namespace cista
