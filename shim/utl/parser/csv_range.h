#pragma once
#include <algorithm>
#include <string_view>
#include <vector>
#include "utl/parser/cstr.h"
#include "utl/parser/line_range.h"
#include "utl/pipes.h"
#include "cista/reflection/shim_members.h"
namespace utl {
template <std::size_t N> struct shim_name { constexpr shim_name(char const (&s)[N]) { std::copy_n(s, N, v_); } char v_[N]; };
template <typename T, shim_name Name>
struct csv_col {
  static constexpr std::string_view name() { return Name.v_; }
  T const& val() const { return v_; }
  T v_{};
};
template <typename Row> struct csv_t {};
template <typename Row> csv_t<Row> csv() { return {}; }
inline std::vector<std::string_view> shim_split_csv(std::string_view l) {
  std::vector<std::string_view> r;
  bool q = false; std::size_t b = 0;
  for (std::size_t i = 0; i <= l.size(); ++i) {
    if (i == l.size() || (l[i] == ',' && !q)) {
      auto c = l.substr(b, i - b);
      if (c.size() >= 2 && c.front() == '"' && c.back() == '"') c = c.substr(1, c.size() - 2);
      r.push_back(c); b = i + 1;
    } else if (l[i] == '"') q = !q;
  }
  return r;
}
template <typename Row>
std::vector<Row> operator|(line_range const& lr, csv_t<Row>) {
  std::vector<Row> rows;
  if (lr.lines_.empty()) return rows;
  auto const head = shim_split_csv(lr.lines_[0]);
  for (std::size_t i = 1; i < lr.lines_.size(); ++i) {
    if (lr.lines_[i].empty()) continue;
    auto const cols = shim_split_csv(lr.lines_[i]);
    Row row{};
    std::apply([&](auto const&... c) {
      (([&] {
        auto const it = std::find(head.begin(), head.end(), c.name());
        auto const idx = static_cast<std::size_t>(it - head.begin());
        if (it != head.end() && idx < cols.size()) const_cast<std::decay_t<decltype(c)>&>(c).v_ = cstr{cols[idx]};
      }()), ...);
    }, cista::shim_tie(row));
    rows.push_back(row);
  }
  return rows;
}
}
#define UTL_NAME(s) ::utl::shim_name{s}
