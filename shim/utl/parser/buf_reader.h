#pragma once
#include <string_view>
namespace utl {
struct buf_reader { template <typename S> explicit buf_reader(S const& s) : s_{std::string_view(s)} {} std::string_view s_; };
}
