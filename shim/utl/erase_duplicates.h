#pragma once
#include <algorithm>
#include <functional>
namespace utl {
template <typename C, typename L = std::less<>, typename Eq = std::equal_to<>>
void erase_duplicates(C& c, L&& less = L{}, Eq&& eq = Eq{}) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c), eq), std::end(c));
}
}
