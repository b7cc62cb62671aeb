// Loads a generated network with the real parser and relates what it built to
// the expectation.
#pragma once

#include "model.h"

#include "soro/infrastructure/infrastructure.h"

namespace mdl {

namespace si = soro::si;
using soro::infra::element;
using soro::infra::infrastructure;
using soro::infra::infrastructure_options;
using soro::infra::node;

inline bool near(double a, double b, double tol = 1e-6) { return std::abs(a - b) <= tol; }

struct world {
  network n;
  std::filesystem::path dir;
  infrastructure_options opts;
  std::unique_ptr<infrastructure> infra;

  std::vector<soro::infra::section::id> section_id;  // model section -> parsed
  std::vector<element::ptr> elem;  // model element -> parsed
  std::map<std::pair<int, int>, element::ptr> mid;  // (section, mid) -> parsed
  std::map<std::pair<int, int>, element::ptr> meta;  // (section, dir) -> parsed
  std::vector<node::ptr> node_of;  // state -> node
  std::map<node::ptr, int> state_of;
  std::vector<int> parsed_station;  // model station -> station id

  virtual ~world() {
    infra.reset();
    if (!dir.empty()) {
      std::error_code ec;
      std::filesystem::remove_all(dir, ec);
    }
  }

  static std::filesystem::path fresh_dir() {
    static int cnt = 0;
    return std::filesystem::path{vh::scratch_dir} / ("net" + std::to_string(cnt++));
  }

  void generate(rng& r, options const& o) {
    n.build(r, o);
    dir = fresh_dir();
    n.save(dir, r);
  }

  void load() {
    opts.infrastructure_path_ = dir;
    infra = std::make_unique<infrastructure>(opts);
  }

  soro::infra::infrastructure_t const& i() const { return **infra; }

  static std::string show(network const& n, int s) {
    auto const& st = n.states[s];
    std::ostringstream o;
    o << "state " << s << " what " << st.what << " a " << st.a << " b " << st.b << " c " << st.c << " type "
      << soro::infra::get_type_str(n.type_of(s));
    return o.str();
  }

  // stations and sections appear in file order
  bool map_sections(vh::ctx& c) {
    parsed_station.assign(n.stations.size(), -1);
    section_id.assign(n.sections.size(), 0);
    if (!c.eq(i().stations_.size(), n.stations.size(), "station-count", "stations")) return false;
    for (std::size_t k = 0; k < n.station_order.size(); ++k) {
      auto const st = n.station_order[k];
      auto const& ps = *i().stations_[k];
      parsed_station[st] = static_cast<int>(k);
      if (!c.check(ps.id_ == k && ps.ds100_ == n.stations[st].ds100, "station-identity", "station ", k, " is ", ps.ds100_,
                   " expected ", n.stations[st].ds100))
        return false;
      if (!c.eq(ps.sections_.size(), n.stations[st].sections.size(), "section-count", "station ", ps.ds100_)) return false;
      for (std::size_t s = 0; s < ps.sections_.size(); ++s) section_id[n.stations[st].sections[s]] = ps.sections_[s];
    }
    return true;
  }

  struct expected {
    int what;  // 0 start/end element, 1 mid, 2 meta
    int a;  // element | mid | direction of the filler
    int km, order;
    std::uint64_t tie;
  };

  // the elements of a section in rising (dir 1) or falling (0) direction
  std::vector<expected> section_order(int s, int dir) const {
    auto const& sec = n.sections[s];
    std::vector<expected> v;
    auto const km = [&](int side) { return n.elems[sec.e[side]].ports[sec.p[side]].km; };
    for (std::size_t m = 0; m < sec.mids.size(); ++m) {
      auto const& t = sec.mids[m];
      v.push_back({1, static_cast<int>(m), t.km, t.order(), t.id});
    }
    for (int d = 0; d < 2; ++d) {
      // a filler is located where its direction enters the section
      if (sec.chain[d].empty()) v.push_back({2, d, km(d == 1 ? 0 : 1), 999, d == 1 ? 0u : 1u});
    }
    std::sort(v.begin(), v.end(), [&](expected const& x, expected const& y) {
      if (x.km != y.km) return dir == 1 ? x.km < y.km : x.km > y.km;
      if (x.order != y.order) return x.order < y.order;
      return x.tie < y.tie;
    });
    int const first = dir == 1 ? 0 : 1;
    v.insert(v.begin(), {0, sec.e[first], km(first), -1, 0});
    v.push_back({0, sec.e[1 - first], km(1 - first), -1, 0});
    return v;
  }

  bool map_elements(vh::ctx& c) {
    elem.assign(n.elems.size(), nullptr);
    for (std::size_t s = 0; s < n.sections.size(); ++s) {
      auto const& ps = i().graph_.sections_[section_id[s]];
      auto const want = section_order(static_cast<int>(s), 1);
      auto const& got = ps.rising_order_;
      if (!c.eq(got.size(), want.size(), "section-size", "elements of section ", s)) return false;
      for (std::size_t k = 0; k < want.size(); ++k) {
        auto const& w = want[k];
        auto const p = got[k];
        type t = type::META;
        if (w.what == 0) {
          t = n.type_of(n.elem_state.at({w.a, 0}));
        } else if (w.what == 1) {
          t = n.sections[s].mids[w.a].kind().t;
        }
        if (!c.check(p->type() == t, "section-order", "section ", s, " position ", k, " of ", want.size(), " is a ",
                     p->get_type_str(), ", expected ", soro::infra::get_type_str(t)))
          return false;
        if (w.what == 0) {
          if (elem[w.a] != nullptr) {
            if (!c.check(elem[w.a] == p, "element-identity", "element ", w.a, " is several elements")) return false;
          }
          elem[w.a] = p;
        } else if (w.what == 1) {
          auto const& te = n.sections[s].mids[w.a];
          double const km = p->is_directed_track_element() ? si::as_m(p->as<soro::infra::track_element>().km_)
                                                           : si::as_m(p->as<soro::infra::undirected_track_element>().km_);
          if (!c.check(near(km, te.km / 10.0, 1e-4), "section-order", "section ", s, " position ", k, " lies at ", km,
                       ", expected ", te.km / 10.0))
            return false;
          if (te.kind().directed && !c.check(p->rising() == te.rising, "section-order", "section ", s, " position ", k,
                                             " has the wrong direction"))
            return false;
          mid[{static_cast<int>(s), w.a}] = p;
        } else {
          if (!c.check(p->rising() == (w.a == 1), "section-order", "filler of section ", s, " has the wrong direction"))
            return false;
          meta[{static_cast<int>(s), w.a}] = p;
        }
      }
    }
    return true;
  }

  element::ptr element_of(int s) const {
    auto const& st = n.states[s];
    if (st.what == 0) return elem[st.a];
    if (st.what == 1) return mid.at({st.a, st.b});
    return meta.at({st.a, st.c});
  }

  // relates states to nodes, reports where the graph differs
  bool map_nodes(vh::ctx& c) {
    node_of.assign(n.states.size(), nullptr);
    std::vector<int> work;
    bool ok = true;
    auto assign = [&](int s, node::ptr p, char const* how) {
      if (node_of[s] != nullptr) {
        if (node_of[s] != p) {
          ok = c.check(false, "connectivity", how, ": ", show(n, s), " is node ", node_of[s]->id_, " and node ", p->id_);
        }
        return;
      }
      if (p->element_ != element_of(s)) {
        ok = c.check(false, "connectivity", how, ": ", show(n, s), " expected at element ", element_of(s)->id(),
                     ", the graph leads to a ", p->element_->get_type_str(), " (element ", p->element_->id(), ")");
        return;
      }
      if (auto const it = state_of.find(p); it != state_of.end()) {
        ok = c.check(false, "connectivity", how, ": node ", p->id_, " is ", show(n, s), " and ", show(n, it->second));
        return;
      }
      node_of[s] = p;
      state_of[p] = s;
      work.push_back(s);
    };
    for (std::size_t k = 0; k < n.states.size(); ++k) {
      auto const s = static_cast<int>(k);
      if (n.directed(s)) assign(s, element_of(s)->as<soro::infra::track_element>().get_node(), "track element");
      auto const& st = n.states[s];
      if (st.what == 0 && n.dead_end(st.a)) {
        // of the two nodes of an end the one with a successor leaves it
        auto const p = element_of(s);
        auto const nodes = p->nodes();
        bool const first = nodes[0]->next_node_ != nullptr;
        if (!c.check(first != (nodes[1]->next_node_ != nullptr), "connectivity", "track end ", st.a,
                     " is not left by exactly one node"))
          return false;
        assign(s, (st.b == -1) == first ? nodes[0] : nodes[1], "track end");
      }
    }
    while (ok && !work.empty()) {
      auto const s = work.back();
      work.pop_back();
      auto const& st = n.states[s];
      auto const p = node_of[s];
      auto edge = [&](int to, node::ptr q, char const* name) {
        if ((to >= 0) != (q != nullptr)) {
          ok = c.check(false, "connectivity", name, " edge of ", show(n, s), to >= 0 ? " is missing" : " should not exist");
          return;
        }
        if (to >= 0) assign(to, q, name);
      };
      edge(st.next, p->next_node_, "next");
      if (ok) edge(st.branch, p->branch_node_, "branch");
    }
    if (!ok) return false;
    std::size_t unmapped = 0;
    for (auto const& p : node_of) unmapped += p == nullptr;
    c.eq(unmapped, std::size_t{0}, "connectivity", "unreached states");
    c.eq(i().graph_.nodes_.size(), n.states.size(), "node-count", "nodes of the graph");
    return unmapped == 0;
  }

  bool map(vh::ctx& c) { return map_sections(c) && map_elements(c) && map_nodes(c); }
};

inline void check_spl(vh::ctx& c, soro::infra::speed_limit const& got, speed_spec const& want,
                      soro::infra::speed_limit::type const t) {
  using spl = soro::infra::speed_limit;
  c.check(got.type_ == t, "speed-limit-data", "type ", static_cast<int>(got.type_), " expected ", static_cast<int>(t));
  c.check(si::valid(got.limit_) == (want.kmh >= 0) && (want.kmh < 0 || near(si::as_km_h(got.limit_), want.kmh, 1e-6)),
          "speed-limit-data", "limit ", si::as_km_h(got.limit_), " expected ", want.kmh);
  c.check(si::valid(got.length_) == (want.length >= 0) && (want.length < 0 || near(si::as_m(got.length_), want.length, 1e-6)),
          "speed-limit-data", "length ", si::as_m(got.length_), " expected ", want.length);
  c.check(got.calculated_ == want.calculated, "speed-limit-data", "calculated");
  c.check((got.poa_ == spl::poa::LAST_SIGNAL) == want.at_signal, "speed-limit-data", "point of action");
  static spl::effects const e[] = {spl::effects::ALL, spl::effects::CONVENTIONAL, spl::effects::LZB_ETCS};
  c.check(got.effects_ == e[want.effects], "speed-limit-data", "effects ", static_cast<int>(got.effects_), " expected ",
          want.effects);
}

inline options random_options(vh::ctx& c) {
  options o;
  auto const big = c.r.chance(c.thorough_ ? 25 : 10);
  o.stations = static_cast<int>(c.r.in(1, big ? 8 : 4));
  o.ops = static_cast<int>(c.r.in(0, big ? 8 : 5));
  o.mids = static_cast<int>(c.r.in(0, big ? 12 : 6));
  o.etcs = c.r.chance(60);
  o.signal_weight = static_cast<unsigned>(c.r.in(0, 60));
  if (c.r.chance(6)) {
    // a large station: long ways with many decisions
    o.stations = static_cast<int>(c.r.in(1, 2));
    o.ops = static_cast<int>(c.r.in(10, c.thorough_ ? 40 : 24));
    o.mids = static_cast<int>(c.r.in(0, 3));
  }
  return o;
}

}  // namespace mdl
