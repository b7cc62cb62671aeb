#pragma once
#include <string_view>
#include <vector>
#include "utl/parser/buf_reader.h"
namespace utl {
struct line_range {
  explicit line_range(buf_reader const& r) {
    auto s = r.s_;
    while (!s.empty()) {
      auto const p = s.find('\n');
      auto l = s.substr(0, p);
      if (!l.empty() && l.back() == '\r') l.remove_suffix(1);
      lines_.push_back(l);
      if (p == std::string_view::npos) break;
      s.remove_prefix(p + 1);
    }
  }
  std::vector<std::string_view> lines_;
};
}
