#pragma once
#include <bit>
#include <cinttypes>
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
#include "cista/containers/array.h"
// Stand-in for cista::bitset, same observable semantics (test() past the end is
// false), hard error on set() past the end through std::abort in checked mode.
namespace cista {
template <std::size_t Size>
struct bitset {
  using block_t = std::uint64_t;
  static constexpr auto const bits_per_block = sizeof(block_t) * 8;
  static constexpr auto const num_blocks =
      Size / bits_per_block + (Size % bits_per_block == 0 ? 0 : 1);
  constexpr bitset() noexcept = default;
  constexpr bitset(std::string_view s) noexcept { set(s); }
  static constexpr bitset max() {
    bitset r;
    for (std::size_t i = 0; i != Size; ++i) r.set(i, true);
    return r;
  }
  constexpr void set(std::string_view s) noexcept {
    for (std::size_t i = 0; i != std::min(Size, s.size()); ++i)
      set(i, s[s.size() - i - 1] != '0');
  }
  constexpr void set(std::size_t const i, bool const val = true) {
    if (i >= Size) __builtin_trap();
    auto const b = block_t{1} << (i % bits_per_block);
    if (val) blocks_[i / bits_per_block] |= b;
    else blocks_[i / bits_per_block] &= ~b;
  }
  constexpr void reset() noexcept { blocks_ = {}; }
  constexpr bool operator[](std::size_t const i) const noexcept { return test(i); }
  constexpr bool test(std::size_t const i) const noexcept {
    if (i >= Size) return false;
    return ((blocks_[i / bits_per_block] >> (i % bits_per_block)) & 1U) != 0U;
  }
  constexpr std::size_t count() const noexcept {
    std::size_t s = 0;
    for (auto const b : blocks_) s += static_cast<std::size_t>(std::popcount(b));
    return s;
  }
  constexpr std::size_t size() const noexcept { return Size; }
  constexpr bool any() const noexcept { return count() != 0; }
  constexpr bool none() const noexcept { return !any(); }
  template <typename Fn>
  constexpr void for_each_set_bit(Fn&& f) const {
    for (std::size_t i = 0; i != Size; ++i) if (test(i)) f(i);
  }
  std::string to_string() const {
    std::string s(Size, '0');
    for (std::size_t i = 0; i != Size; ++i) s[Size - i - 1] = test(i) ? '1' : '0';
    return s;
  }
  std::string str() const { return to_string(); }
  friend constexpr bool operator==(bitset const& a, bitset const& b) noexcept = default;
  friend constexpr auto operator<=>(bitset const& a, bitset const& b) noexcept {
    for (std::size_t i = num_blocks; i != 0; --i)
      if (a.blocks_[i - 1] != b.blocks_[i - 1]) return a.blocks_[i - 1] <=> b.blocks_[i - 1];
    return std::strong_ordering::equal;
  }
  constexpr bitset& operator&=(bitset const& o) noexcept {
    for (std::size_t i = 0; i != num_blocks; ++i) blocks_[i] &= o.blocks_[i];
    return *this;
  }
  constexpr bitset& operator|=(bitset const& o) noexcept {
    for (std::size_t i = 0; i != num_blocks; ++i) blocks_[i] |= o.blocks_[i];
    return *this;
  }
  constexpr bitset& operator^=(bitset const& o) noexcept {
    for (std::size_t i = 0; i != num_blocks; ++i) blocks_[i] ^= o.blocks_[i];
    return *this;
  }
  constexpr bitset operator~() const noexcept {
    bitset r;
    for (std::size_t i = 0; i != Size; ++i) r.set(i, !test(i));
    return r;
  }
  friend constexpr bitset operator&(bitset a, bitset const& b) noexcept { a &= b; return a; }
  friend constexpr bitset operator|(bitset a, bitset const& b) noexcept { a |= b; return a; }
  friend constexpr bitset operator^(bitset a, bitset const& b) noexcept { a ^= b; return a; }
  constexpr bitset& operator>>=(std::size_t const n) noexcept {
    bitset r;
    for (std::size_t i = 0; i + n < Size && n < Size; ++i) if (test(i + n)) r.set(i);
    return *this = r;
  }
  constexpr bitset& operator<<=(std::size_t const n) noexcept {
    bitset r;
    for (std::size_t i = n; i < Size; ++i) if (test(i - n)) r.set(i);
    return *this = r;
  }
  constexpr bitset operator>>(std::size_t const i) const noexcept { auto c = *this; c >>= i; return c; }
  constexpr bitset operator<<(std::size_t const i) const noexcept { auto c = *this; c <<= i; return c; }
  array<block_t, num_blocks> blocks_{};
};
}  // namespace cista
