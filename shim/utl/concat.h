#pragma once
#include <iterator>
namespace utl {
template <typename Dest, typename Src>
Dest& concat(Dest& a, Src&& b) { a.insert(std::end(a), std::begin(b), std::end(b)); return a; }
}
