#pragma once
// stands in for the fuzzy string index: exact matches first, then names that contain the query
#include <string>
#include <utility>
#include <vector>
namespace guess {
struct match { std::size_t index; double cos_sim; };
struct guesser {
  explicit guesser(std::vector<std::pair<std::string, float>> const& c) : c_{c} {}
  std::vector<match> guess_match(std::string const& q, unsigned const k = 20) const {
    std::vector<match> r;
    for (int pass = 0; pass < 2; ++pass) {
      for (std::size_t i = 0; i < c_.size() && r.size() < k; ++i) {
        bool const same = c_[i].first == q;
        if (pass == 0 ? same : !same && c_[i].first.find(q) != std::string::npos) r.push_back({i, same ? 1.0 : 0.5});
      }
    }
    return r;
  }
  std::vector<std::pair<std::string, float>> c_;
};
}  // namespace guess
