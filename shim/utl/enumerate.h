#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename C>
struct enumerate_range {
  using it_t = decltype(std::begin(std::declval<C&>()));
  struct iterator {
    bool operator!=(iterator const& o) const { return it_ != o.it_; }
    bool operator==(iterator const& o) const { return it_ == o.it_; }
    iterator& operator++() { ++i_; ++it_; return *this; }
    auto operator*() const { return std::tuple<std::size_t, decltype(*std::declval<it_t&>())>{i_, *it_}; }
    std::size_t i_; it_t it_;
  };
  iterator begin() { return {0, std::begin(c_)}; }
  iterator end() { return {0, std::end(c_)}; }
  C c_;
};
template <typename C>
auto enumerate(C&& c) { return enumerate_range<C>{std::forward<C>(c)}; }
}
