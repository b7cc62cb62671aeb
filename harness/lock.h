// The interlocking routes a generated network is expected to have.
#pragma once

#include "routes.h"

namespace mdl {

struct lock_route {
  std::size_t start, end;  // offsets into the first and last station route
  std::vector<int> srs;
  bool operator<(lock_route const& o) const {
    return std::tie(srs, start, end) < std::tie(o.srs, o.start, o.end);
  }
  bool operator==(lock_route const& o) const { return srs == o.srs && start == o.start && end == o.end; }
};

struct lock_view {
  route_view v;
  std::vector<std::set<int>> succ, pred;
  std::vector<bool> etcs;
  std::vector<lock_route> all;
  bool too_many{false};

  lock_view(network const& n, std::size_t limit) : v(n) {
    succ.resize(v.r.size());
    pred.resize(v.r.size());
    for (std::size_t k = 0; k < v.r.size(); ++k) {
      etcs.push_back(needs_etcs(n, *v.r[k]));
      succ[k] = v.successors(n, static_cast<int>(k));
      for (auto const x : succ[k]) pred[x].insert(static_cast<int>(k));
    }
    for (std::size_t k = 0; k < v.r.size(); ++k) {
      auto const& sig = v.r[k]->signals;
      auto const id = static_cast<int>(k);
      auto const sz = [](int p) { return static_cast<std::size_t>(p); };
      // from the last signal (or an entry into the network) into the next stations
      if (!etcs[k] && (!sig.empty() || pred[k].empty())) {
        std::vector<int> path = {id};
        extend(path, sig.empty() ? 0 : sz(sig.back()), limit);
      }
      // within the route from signal to signal
      for (std::size_t q = 0; q + 1 < sig.size(); ++q) all.push_back({sz(sig[q]), sz(sig[q + 1]) + 1, {id}});
      if (!sig.empty() && pred[k].empty()) all.push_back({0, sz(sig.front()) + 1, {id}});
      if (!sig.empty() && succ[k].empty()) all.push_back({sz(sig.back()), v.r[k]->states.size(), {id}});
      if (all.size() > limit) {
        too_many = true;
        return;
      }
    }
    std::sort(all.begin(), all.end());
  }
  void extend(std::vector<int>& path, std::size_t start, std::size_t limit) {
    for (auto const x : succ[path.back()]) {
      if (all.size() > limit) return;
      if (etcs[x]) continue;
      path.push_back(x);
      auto const& r = *v.r[x];
      if (!r.signals.empty()) {
        all.push_back({start, static_cast<std::size_t>(r.signals.front()) + 1, path});
      } else if (succ[x].empty()) {
        all.push_back({start, r.states.size(), path});
      } else {
        extend(path, start, limit);
      }
      path.pop_back();
    }
  }
};

}  // namespace mdl
