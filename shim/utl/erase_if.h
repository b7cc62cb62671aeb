#pragma once
#include <algorithm>
namespace utl {
template <typename C, typename P>
void erase_if(C& c, P&& p) { c.erase(std::remove_if(std::begin(c), std::end(c), std::forward<P>(p)), std::end(c)); }
}
