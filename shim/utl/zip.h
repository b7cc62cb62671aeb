#pragma once
#include <iterator>
#include <tuple>
#include <utility>
#include "utl/verify.h"
namespace utl {
template <typename A, typename B>
struct zip_range {
  using ia = decltype(std::begin(std::declval<A&>()));
  using ib = decltype(std::begin(std::declval<B&>()));
  struct iterator {
    bool operator!=(iterator const& o) const { return a_ != o.a_; }
    bool operator==(iterator const& o) const { return a_ == o.a_; }
    iterator& operator++() { ++a_; ++b_; return *this; }
    auto operator*() const { return std::tuple<decltype(*std::declval<ia&>()), decltype(*std::declval<ib&>())>{*a_, *b_}; }
    ia a_; ib b_;
  };
  iterator begin() { return {std::begin(a_), std::begin(b_)}; }
  iterator end() { return {std::end(a_), std::end(b_)}; }
  A a_; B b_;
};
template <typename A, typename B>
auto zip(A&& a, B&& b) {
  utl::verify(std::size(a) == std::size(b), "zip: container size mismatch");
  return zip_range<A, B>{std::forward<A>(a), std::forward<B>(b)};
}
}
