#pragma once
#include <iterator>
#include <tuple>
#include <utility>
namespace utl {
template <typename C>
struct pairwise_range {
  using it_t = decltype(std::begin(std::declval<std::add_const_t<C>&>()));
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::tuple<decltype(*std::declval<it_t&>()), decltype(*std::declval<it_t&>())>;
    using difference_type = std::ptrdiff_t;
    using reference = value_type;
    using pointer = value_type*;
    bool operator!=(iterator const& o) const { return b_ != o.b_; }
    bool operator==(iterator const& o) const { return b_ == o.b_; }
    iterator& operator++() { ++a_; ++b_; return *this; }
    value_type operator*() const { return {*a_, *b_}; }
    it_t a_, b_;
  };
  iterator begin() const {
    auto b = std::begin(c_); auto const e = std::end(c_);
    if (b == e) return {b, e};
    auto const a = b; ++b; return {a, b};
  }
  iterator end() const { return {std::end(c_), std::end(c_)}; }
  C c_;
};
template <typename C>
auto pairwise(C&& c) { return pairwise_range<C>{std::forward<C>(c)}; }
}
