#pragma once
#include <tuple>
namespace cista {
// distinct from std::tuple, as in the real library
template <typename... Ts> struct tuple : std::tuple<Ts...> { using std::tuple<Ts...>::tuple; };
template <typename T> constexpr auto tuple_size_v = std::tuple_size_v<T>;
template <std::size_t I, typename T> using tuple_element_t = std::tuple_element_t<I, T>;
}
