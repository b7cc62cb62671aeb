#pragma once
#include <algorithm>
#include <bit>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
namespace cista {
struct shim_blocks : std::vector<std::uint64_t> {
  using size_type = std::uint32_t;
  using base = std::vector<std::uint64_t>;
  using base::base;
  size_type size() const { return static_cast<size_type>(base::size()); }
  std::uint64_t& operator[](std::size_t i) { if (i >= base::size()) report(); return base::operator[](i); }
  std::uint64_t const& operator[](std::size_t i) const { if (i >= base::size()) report(); return base::operator[](i); }
  [[noreturn]] static void report() {
    // out-of-range block access: undefined behaviour in the real container
    std::fputs("ERROR: monitor: out-of-range bitvec block access\n", stderr);
    std::abort();
  }
};
struct bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(sizeof(block_t) * 8);
  static constexpr size_type num_blocks(size_type num_bits) {
    return num_bits / bits_per_block + (num_bits % bits_per_block == 0 ? 0 : 1);
  }
  bitvec() noexcept = default;
  explicit bitvec(std::string_view s) { set(s); }
  void resize(size_type const new_size) {
    if (new_size == size_) return;
    sanitize();
    blocks_.resize(num_blocks(new_size));
    size_ = new_size;
    sanitize();
  }
  void sanitize() {
    if (size_ % bits_per_block != 0U && !blocks_.empty())
      blocks_[size_ / bits_per_block] &= ~((~block_t{0}) << (size_ % bits_per_block));
  }
  void set(std::string_view s) {
    resize(static_cast<size_type>(s.size()));
    for (size_type i = 0; i != size_; ++i) set(i, s[s.size() - i - 1] != '0');
  }
  void set(size_type const i, bool const val = true) {
    if (i >= size_) shim_blocks::report();
    auto const b = block_t{1} << (i % bits_per_block);
    if (val) blocks_[i / bits_per_block] |= b;
    else blocks_[i / bits_per_block] &= ~b;
  }
  void reset() noexcept { blocks_ = {}; size_ = 0; }
  bool operator[](size_type const i) const { return test(i); }
  bool test(size_type const i) const {
    if (i >= size_) return false;
    return ((blocks_[i / bits_per_block] >> (i % bits_per_block)) & 1U) != 0U;
  }
  size_type size() const noexcept { return size_; }
  bool empty() const noexcept { return size_ == 0U; }
  std::size_t count() const {
    std::size_t s = 0;
    for (size_type i = 0; i != blocks_.size(); ++i) s += static_cast<std::size_t>(std::popcount(blocks_[i]));
    return s;
  }
  bool any() const { return count() != 0; }
  bool none() const { return !any(); }
  std::string str() const {
    std::string s(size_, '0');
    for (size_type i = 0; i != size_; ++i) s[size_ - i - 1] = test(i) ? '1' : '0';
    return s;
  }
  friend bool operator==(bitvec const& a, bitvec const& b) noexcept {
    return a.size_ == b.size_ && std::equal(a.blocks_.begin(), a.blocks_.end(), b.blocks_.begin(), b.blocks_.end());
  }
  bitvec& operator&=(bitvec const& o) { for (size_type i = 0; i != blocks_.size(); ++i) blocks_[i] &= o.blocks_[i]; return *this; }
  bitvec& operator|=(bitvec const& o) { for (size_type i = 0; i != blocks_.size(); ++i) blocks_[i] |= o.blocks_[i]; return *this; }
  bitvec& operator^=(bitvec const& o) { for (size_type i = 0; i != blocks_.size(); ++i) blocks_[i] ^= o.blocks_[i]; return *this; }
  bitvec& operator>>=(std::size_t const n) {
    bitvec r; r.resize(size_);
    for (size_type i = 0; n < size_ && i + n < size_; ++i) if (test(static_cast<size_type>(i + n))) r.set(i);
    return *this = r;
  }
  bitvec& operator<<=(std::size_t const n) {
    bitvec r; r.resize(size_);
    for (std::size_t i = n; i < size_; ++i) if (test(static_cast<size_type>(i - n))) r.set(static_cast<size_type>(i));
    return *this = r;
  }
  bitvec operator>>(std::size_t n) const { auto c = *this; c >>= n; return c; }
  bitvec operator<<(std::size_t n) const { auto c = *this; c <<= n; return c; }
  size_type size_{0U};
  shim_blocks blocks_;
};
namespace offset { using cista::bitvec; }
namespace raw { using cista::bitvec; }
}  // namespace cista
