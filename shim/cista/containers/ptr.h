#pragma once
#include <type_traits>
namespace cista {
template <typename T> constexpr bool is_pointer_v = std::is_pointer_v<T>;
template <typename T> using remove_pointer_t = std::remove_pointer_t<T>;
namespace offset { template <typename T> using ptr = T*; }
namespace raw { template <typename T> using ptr = T*; }
}
