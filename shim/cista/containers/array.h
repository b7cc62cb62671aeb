#pragma once
#include "cista/containers/string.h"
#include "cista/containers/ptr.h"
#include "cista/containers/vector.h"
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <stdexcept>
namespace cista {
template <typename T, std::size_t Size>
struct array {
  using value_type = T;
  using size_type = std::uint32_t;
  using iterator = T*;
  using const_iterator = T const*;
  constexpr T const& operator[](std::size_t i) const { return el_[i]; }
  constexpr T& operator[](std::size_t i) { return el_[i]; }
  constexpr T& at(std::size_t i) {
    if (i >= Size) throw std::out_of_range{"array::at"};
    return el_[i];
  }
  constexpr T const& at(std::size_t i) const {
    if (i >= Size) throw std::out_of_range{"array::at"};
    return el_[i];
  }
  constexpr std::size_t size() const { return Size; }
  constexpr bool empty() const { return Size == 0; }
  constexpr iterator begin() { return el_; }
  constexpr iterator end() { return el_ + Size; }
  constexpr const_iterator begin() const { return el_; }
  constexpr const_iterator end() const { return el_ + Size; }
  friend constexpr T* begin(array& a) { return a.begin(); }
  friend constexpr T* end(array& a) { return a.end(); }
  friend constexpr T const* begin(array const& a) { return a.begin(); }
  friend constexpr T const* end(array const& a) { return a.end(); }
  constexpr T& front() { return el_[0]; }
  constexpr T const& front() const { return el_[0]; }
  constexpr T& back() { return el_[Size - 1]; }
  constexpr T const& back() const { return el_[Size - 1]; }
  constexpr T* data() { return el_; }
  constexpr T const* data() const { return el_; }
  constexpr void fill(T const& v) {
    for (auto& e : el_) e = v;
  }
  bool operator==(array const& o) const = default;
  auto operator<=>(array const& o) const = default;
  T el_[Size];
};
namespace offset {
template <typename T, std::size_t S>
using array = cista::array<T, S>;
}
namespace raw {
template <typename T, std::size_t S>
using array = cista::array<T, S>;
}
}  // namespace cista
