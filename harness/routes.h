// What the routes of a generated network are expected to be.
#pragma once

#include "world.h"

namespace mdl {

inline options route_options(vh::ctx& c) {
  auto o = random_options(c);
  o.routes = true;
  o.max_routes = static_cast<unsigned>(c.r.in(1, c.r.chance(20) ? 60 : 14));
  return o;
}

// kilometre of state s on the side towards its neighbour t (0.1 m)
inline int km_towards(network const& n, int s, int t) {
  auto const& st = n.states[s];
  if (st.what == 1) return n.sections[st.a].mids[st.b].km;
  if (st.what == 2) {
    // located where its direction enters the section
    auto const& sec = n.sections[st.a];
    int const side = st.c == 1 ? 0 : 1;
    return n.elems[sec.e[side]].ports[sec.p[side]].km;
  }
  auto const& e = n.elems[st.a];
  if (e.ports.size() == 1) return e.ports[0].km;
  auto const sec = n.states[t].a;  // never two section elements next to each other
  for (auto const& p : e.ports) {
    if (p.section == sec) return p.km;
  }
  std::abort();
}

inline double length_of(network const& n, std::vector<int> const& path) {
  double l = 0;
  for (std::size_t i = 0; i + 1 < path.size(); ++i) {
    l += std::abs(km_towards(n, path[i], path[i + 1]) - km_towards(n, path[i + 1], path[i])) / 10.0;
  }
  return l;
}

inline line_segment const& segment_at(network const& n, int line, int km) {
  for (auto const& l : n.lines) {
    if (l.id != line) continue;
    if (km < l.segments.front().from) return l.segments.front();
    if (km > l.segments.back().to) return l.segments.back();
    for (std::size_t k = l.segments.size(); k-- > 0;) {
      if (l.segments[k].from <= km) return l.segments[k];
    }
  }
  std::abort();
}

inline bool has_signalling(int key) {
  static std::set<int> const s = {1, 2, 6, 8, 9, 12, 15, 18, 20, 21, 23};
  return s.count(key) > 0;
}

// the route can only be used with etcs
inline bool needs_etcs(network const& n, route const& r) {
  for (std::size_t i = r.states.size(); i-- > 0;) {
    if (n.type_of(r.states[i]) != type::ETCS_START) continue;
    auto const& st = n.states[r.states[i]];
    return !has_signalling(segment_at(n, n.sections[st.a].line, n.sections[st.a].mids[st.b].km).key);
  }
  return false;
}

struct route_view {
  std::vector<route const*> r;  // by id

  explicit route_view(network const& n) {
    for (auto const& x : n.routes) {
      if (x.id < 0) continue;
      if (r.size() <= static_cast<std::size_t>(x.id)) r.resize(static_cast<std::size_t>(x.id) + 1, nullptr);
      r[static_cast<std::size_t>(x.id)] = &x;
    }
  }
  bool ends_at(network const& n, int id, kind k) const {
    auto const& st = n.states[r[id]->states.back()];
    return st.what == 0 && n.elems[st.a].k == k;
  }
  // routes that continue route id in the next station
  std::set<int> successors(network const& n, int id) const {
    std::set<int> v;
    if (!ends_at(n, id, BORDER)) return v;
    auto const& e = n.elems[n.states[r[id]->states.back()].a];
    if (e.partner < 0) return v;
    for (std::size_t k = 0; k < r.size(); ++k) {
      auto const& f = n.states[r[k]->states.front()];
      if (f.what == 0 && f.a == e.partner) v.insert(static_cast<int>(k));
    }
    return v;
  }
};

struct stop {
  int state;
  bool omitted;
  int spl;  // index into the sorted list of extra speed limits, or -1
};

// what a traversal of the route's nodes in [from, to) yields
inline std::vector<stop> traversal(route const& r, std::size_t from, std::size_t to) {
  std::vector<stop> v;
  int spl = 0;
  for (std::size_t i = 0; i < r.states.size(); ++i) {
    bool const om = r.omitted.count(static_cast<int>(i)) > 0;
    int here = -1;
    if (auto const it = r.spls.find(static_cast<int>(i)); it != r.spls.end()) here = spl++;
    if (i >= from && i < to) v.push_back({r.states[i], om, om ? -1 : here});
  }
  return v;
}

template <typename Gen>
void check_traversal(vh::ctx& c, world const& w, std::vector<std::pair<route const*, std::pair<std::size_t, std::size_t>>> const& parts,
                     soro::infra::infrastructure_t const& i, Gen&& gen, char const* key, std::string const& what) {
  struct item {
    stop s;
    soro::infra::station_route::ptr sr;
  };
  std::vector<item> want;
  for (auto const& [r, range] : parts) {
    for (auto const& s : traversal(*r, range.first, range.second)) want.push_back({s, i.station_routes_[r->id]});
  }
  std::size_t k = 0;
  for (auto const rn : gen) {
    if (k >= want.size()) {
      c.check(false, key, what, " yields more than ", want.size(), " nodes");
      return;
    }
    auto const& x = want[k];
    c.check(rn.node_ == w.node_of[x.s.state], key, what, ": node ", k, " of ", want.size());
    c.check(rn.omitted_ == x.s.omitted && rn.omitted() == x.s.omitted, key, what, ": omission at ", k);
    if (c.check(rn.extra_spl_.has_value() == (x.s.spl >= 0), key, what, ": extra speed limit at ", k, " is ",
                rn.extra_spl_.has_value(), " expected ", x.s.spl >= 0) &&
        x.s.spl >= 0) {
      c.check(*rn.extra_spl_ == &x.sr->extra_speed_limits_[x.s.spl], key, what, ": which extra speed limit at ", k);
    }
    ++k;
  }
  c.check(k == want.size(), key, what, " yields ", k, " nodes, expected ", want.size());
}

}  // namespace mdl
