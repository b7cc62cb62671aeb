#pragma once
// standard headers the sources of soro use without including them, and the
// switches that let them compile against the installed fmt
#define FMT_DEPRECATED_OSTREAM
#define FMT_CONSTEVAL
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "fmt/format.h"
#include "fmt/ostream.h"
template <typename S>
struct fmt::formatter<std::__detail::_Quoted_string<S, char>> : fmt::formatter<std::string> {
  template <typename Ctx>
  auto format(std::__detail::_Quoted_string<S, char> const& q, Ctx& ctx) const {
    std::ostringstream o;
    o << q;
    return fmt::formatter<std::string>::format(o.str(), ctx);
  }
};
#include <system_error>
template <>
struct fmt::formatter<std::errc> : fmt::formatter<int> {
  template <typename Ctx>
  auto format(std::errc const e, Ctx& ctx) const { return fmt::formatter<int>::format(static_cast<int>(e), ctx); }
};
