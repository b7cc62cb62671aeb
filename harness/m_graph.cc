#include "tt.h"

#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"

using namespace mdl;
namespace inf = soro::infra;

namespace {
infrastructure_options plain() {
  infrastructure_options o;
  o.interlocking_ = false;
  o.exclusions_ = false;
  o.layout_ = false;
  return o;
}

void observe(vh::ctx& c, world const& w) {
  c.stat("elements", w.n.elems.size());
  c.stat("sections", w.n.sections.size());
  c.stat("graph_nodes", w.n.states.size());
  if (w.n.sections.size() > 2) c.nontrivial();
  for (auto const& s : w.n.sections) c.sig(static_cast<std::uint64_t>(s.e[0] * 131 + s.e[1]) * 7 + s.mids.size());
  if (c.case_ < 400) {
    std::ostringstream o;
    o << w.n.stations.size() << " stations, " << w.n.sections.size() << " sections, " << w.n.elems.size() << " ends and joints, "
      << w.n.states.size() << " graph nodes";
    c.note(o.str());
  }
}

std::string decoded(std::string s) {
  auto rep = [&](std::string const& a, std::string const& b) {
    for (auto p = s.find(a); p != std::string::npos; p = s.find(a, p + b.size())) s.replace(p, a.size(), b);
  };
  rep("&lt;", "<");
  rep("&gt;", ">");
  rep("&amp;", "&");
  return s;
}
}  // namespace

// the topology of the network is the graph
CASES(I01) {
  world w;
  auto o = random_options(c);
  o.routes = false;
  w.generate(c.r, o);
  w.opts = plain();
  w.load();
  observe(c, w);
  if (!w.map(c)) return;
  auto const& n = w.n;
  auto const& g = w.i().graph_;

  // reverse edges mirror the forward edges
  std::map<node::ptr, std::multiset<node::ptr>> back;
  for (auto const p : g.nodes_) {
    if (p->next_node_ != nullptr) back[p->next_node_].insert(p);
    if (p->branch_node_ != nullptr) back[p->branch_node_].insert(p);
  }
  for (auto const p : g.nodes_) {
    std::multiset<node::ptr> const got(p->reverse_edges_.begin(), p->reverse_edges_.end());
    c.check(got == back[p], "reverse-edges", "node ", p->id_, " has ", got.size(), " reverse edges, expected ", back[p].size());
  }

  // walking back on the straight track
  std::vector<std::vector<int>> preds(n.states.size());
  for (std::size_t s = 0; s < n.states.size(); ++s) {
    if (n.states[s].next >= 0) preds[n.states[s].next].push_back(static_cast<int>(s));
    if (n.states[s].branch >= 0) preds[n.states[s].branch].push_back(static_cast<int>(s));
  }
  for (std::size_t s = 0; s < n.states.size(); ++s) {
    int want = -1;
    auto const& st = n.states[s];
    if (preds[s].size() == 1) {
      want = preds[s][0];
    } else if (preds[s].size() > 1) {
      bool const merge = st.what == 0 && n.elems[st.a].k == SWITCH;
      for (auto const p : preds[s]) {
        if (merge) {
          auto const stem = n.elems[st.a].ports[1].section;
          if (n.states[p].what != 0 && n.states[p].a == stem) want = p;
        } else if (n.states[p].next == static_cast<int>(s)) {
          want = p;
        }
      }
    }
    auto const got = w.node_of[s]->reverse_ahead();
    c.check(got == (want < 0 ? nullptr : w.node_of[want]), "reverse-ahead", "reverse of ", world::show(n, static_cast<int>(s)),
            " is ", got == nullptr ? std::string("nothing") : world::show(n, w.state_of.at(got)), ", expected ",
            want < 0 ? std::string("nothing") : world::show(n, want));
    c.stat("merges", preds[s].size() > 1);
  }

  // ids name positions, nodes and elements know each other
  for (std::size_t k = 0; k < g.nodes_.size(); ++k) {
    auto const p = g.nodes_[k];
    auto const ns = p->element_->nodes();
    c.check(p->id_ == k && std::count(ns.begin(), ns.end(), p) == 1, "node-identity", "node ", k, " has id ", p->id_);
  }
  for (std::size_t k = 0; k < g.elements_.size(); ++k) {
    auto const e = g.elements_[k];
    c.check(e->id() == k, "element-identity", "element ", k, " has id ", e->id());
    for (auto const p : e->nodes()) c.check(p->element_ == e, "element-identity", "node of element ", k);
  }
  c.eq(g.element_data_.size(), g.elements_.size(), "element-data-count", "element data");

  // neighbours are what is next to each other on the tracks
  std::map<element::ptr, std::set<element::ptr>> adj;
  for (auto const& st : n.states) {
    auto const a = w.element_of(static_cast<int>(&st - n.states.data()));
    for (auto const t : {st.next, st.branch}) {
      if (t < 0) continue;
      auto const b = w.element_of(t);
      // a switch between two tracks is next to both of them
      adj[a].insert(b);
      adj[b].insert(a);
    }
  }
  for (auto const e : g.elements_) {
    std::set<element::ptr> got;
    for (auto const x : e->neighbours()) {
      if (x != nullptr) got.insert(x);
    }
    std::ostringstream d;
    for (auto const x : got) d << (adj[e].count(x) ? "" : " extra ") << x->get_type_str() << x->id();
    for (auto const x : adj[e]) d << (got.count(x) ? "" : " missing ") << x->get_type_str() << x->id();
    c.check(e->get_distance(e) == si::ZERO<si::length>, "distance-self", e->get_type_str(), " ", e->id());
    c.check(got == adj[e], "neighbours", e->get_type_str(), " ", e->id(), " has ", got.size(), " neighbours, expected ",
            adj[e].size(), " ", d.str());
  }
}

// what is written about an element is known about it
CASES(I02) {
  world w;
  auto o = random_options(c);
  o.routes = false;
  w.generate(c.r, o);
  std::vector<series_spec> stock;
  if (c.r.chance(40)) {
    stock = random_stock(c.r, 0);
    w.n.core_extra = stock_files(stock, c.r);
    w.n.save(w.dir, c.r);
  }
  w.opts = plain();
  if (c.r.chance(15)) {
    // the path may also name the index itself
    w.opts.infrastructure_path_ = w.dir / "Index.xml";
    w.infra = std::make_unique<infrastructure>(w.opts);
  } else {
    w.load();
    c.eq(std::string(w.i().source_), w.dir.filename().string(), "source", "source");
  }
  observe(c, w);
  if (!w.map_sections(c) || !w.map_elements(c)) return;
  auto const& n = w.n;
  auto const& i = w.i();
  auto const& g = i.graph_;

  c.eq(i.version_.number_, n.version, "version", "version number");
  c.eq(std::string(i.version_.name_), "v" + std::to_string(n.version), "version", "version name");
  c.eq(std::string(i.defaults_.line_class_), std::string("D4"), "defaults", "line class");
  c.check(near(si::as_s(i.defaults_.route_form_time_), n.default_form_time / 10.0) &&
              near(si::as_m(i.defaults_.brake_path_length_), n.default_brake_path / 10.0, 1e-6) &&
              near(si::as_km_h(i.defaults_.stationary_speed_limit_), n.default_kmh, 1e-6),
          "defaults", "default values");
  c.eq(i.rolling_stock_.train_series_.size(), stock.size(), "stock", "train series");

  for (std::size_t s = 0; s < n.stations.size(); ++s) {
    auto const& st = n.stations[s];
    c.eq(std::string(i.full_station_names_[w.parsed_station[s]]), st.has_name ? st.name : st.ds100, "station-name", "station ",
         st.ds100);
  }

  for (auto const& [key, e] : w.mid) {
    auto const& m = n.sections[key.first].mids[key.second];
    auto const line = n.sections[key.first].line;
    auto const& data = g.element_data_[e->id()];
    c.check((e->is_directed_track_element() ? e->as<inf::track_element>().line_ : e->as<inf::undirected_track_element>().line_) ==
                line,
            "element-line", e->get_type_str(), " ", e->id());
    switch (m.kind().t) {
      case type::HALT: {
        c.stat("halts");
        auto const& h = data.as<inf::halt>();
        std::string const b = m.kind().base;
        c.eq(std::string(h.name_), decoded(m.name), "halt-data", "name");
        c.eq(std::string(h.identifier_operational_), m.op, "halt-data", "operational identifier");
        c.eq(std::string(h.identifier_extern_), m.ext, "halt-data", "external identifier");
        c.eq(h.is_passenger_, b.find("Rz") != b.npos, "halt-data", "passenger halt ", b);
        c.eq(h.is_left_, b.find("Links") != b.npos, "halt-data", "left ", b);
        c.eq(h.is_right_, b.find("Rechts") != b.npos, "halt-data", "right ", b);
        break;
      }
      case type::MAIN_SIGNAL:
        c.stat("signals");
        c.eq(std::string(data.as<inf::main_signal>().name_), decoded(m.name), "signal-data", "signal name");
        break;
      case type::EOTD:
        c.stat("eotds");
        c.eq(data.as<inf::eotd>().signal_, std::string(m.kind().base) == "SignalZugschlussstelle", "eotd-data",
             m.kind().base);
        break;
      case type::SLOPE:
        c.stat("slopes");
        c.check(near(data.as<inf::slope>().rising_.val_, m.slope_up / 100.0) &&
                    near(data.as<inf::slope>().falling_.val_, m.slope_down / 100.0),
                "slope-data", "slope ", data.as<inf::slope>().rising_.val_, "/", data.as<inf::slope>().falling_.val_, " expected ",
                m.slope_up / 100.0, "/", m.slope_down / 100.0);
        break;
      case type::SPEED_LIMIT: {
        c.stat("speed_limits");
        auto const& spl = data.as<inf::speed_limit>();
        check_spl(c, spl, m.spl,
                  std::string(m.kind().base) == "GeschwEndeSpeziell" ? inf::speed_limit::type::END_SPECIAL
                                                                     : inf::speed_limit::type::GENERAL_ALLOWED);
        c.check(spl.element_ == e && spl.node_ == e->as<inf::track_element>().get_node(), "speed-limit-data", "its element");
        break;
      }
      default: break;
    }
  }

  // ends of sections: kind, position, line, direction, name
  for (std::size_t k = 0; k < n.elems.size(); ++k) {
    auto const& el = n.elems[k];
    auto const p = w.elem[k];
    auto const at = [&](int port, double km, unsigned line) {
      auto const& pt = el.ports[port];
      c.check(near(km, pt.km / 10.0, 1e-4) && line == static_cast<unsigned>(pt.line), "end-position", p->get_type_str(), " ",
              p->id(), " port ", port, " lies at ", km, " of line ", line, ", expected ", pt.km / 10.0, " of ", pt.line);
    };
    auto const dir = [&](int port, bool rising) {
      c.check(rising == !el.ports[port].at_start, "end-direction", p->get_type_str(), " ", p->id(), " port ", port);
    };
    auto const m = [](si::length const l) { return si::as_m(l); };
    dir(0, p->rising());
    switch (el.k) {
      case BUMPER:
      case TRACK_END: {
        auto const& x = p->as<inf::end_element>();
        at(0, m(x.km_), x.line_);
        break;
      }
      case BORDER: {
        auto const& x = p->as<inf::simple_element>();
        // only one of the two sides is in this station
        if (p->rising() ? !near(m(x.end_km_), el.ports[0].km / 10.0, 1e-4) : true) at(0, m(x.start_km_), x.start_line_);
        break;
      }
      case KM_JUMP:
      case LINE_SWITCH: {
        auto const& x = p->as<inf::simple_element>();
        at(0, m(x.start_km_), x.start_line_);
        at(1, m(x.end_km_), x.end_line_);
        if (el.k == LINE_SWITCH) dir(1, x.end_rising_);
        break;
      }
      case SWITCH: {
        auto const& x = p->as<inf::simple_switch>();
        at(0, m(x.start_km_), x.start_line_);
        at(1, m(x.stem_km_), x.stem_line_);
        at(2, m(x.branch_km_), x.branch_line_);
        dir(1, x.stem_rising_);
        dir(2, x.branch_rising_);
        auto const& d = g.element_data_[p->id()].as<inf::switch_data>();
        c.eq(std::string(d.name_), el.name, "switch-data", "name");
        c.check(d.ui_identifier_.has_value() == el.has_ui && (!el.has_ui || std::string(*d.ui_identifier_) == el.ui), "switch-data",
                "identifier");
        break;
      }
      case CROSS: {
        auto const& x = p->as<inf::cross>();
        at(0, m(x.start_left_km_), x.start_left_line_);
        at(1, m(x.end_left_km_), x.end_left_line_);
        at(2, m(x.start_right_km_), x.start_right_line_);
        at(3, m(x.end_right_km_), x.end_right_line_);
        dir(1, x.end_left_rising_);
        dir(2, x.start_right_rising_);
        dir(3, x.end_right_rising_);
        c.check(x.start_left_end_right_arc_ == el.arc1 && x.start_right_end_left_arc_ == el.arc2, "cross-arcs", "arcs of cross ",
                p->id());
        c.eq(p->is_cross_switch(), el.arc1 || el.arc2, "cross-arcs", "cross switch");
        break;
      }
    }
  }

  // lines
  static std::set<int> const signalling = {1, 2, 6, 8, 9, 12, 15, 18, 20, 21, 23}, lzb = {2, 3}, etcs = {8, 9, 12, 13, 18, 23};
  for (auto const& l : n.lines) {
    auto const it = i.lines_.find(static_cast<inf::line::id>(l.id));
    if (!c.check(it != std::end(i.lines_), "lines", "line ", l.id, " is missing")) continue;
    auto const& pl = it->second;
    if (!c.eq(pl.segments_.size(), l.segments.size(), "lines", "segments of line ", l.id)) continue;
    for (std::size_t k = 0; k < l.segments.size(); ++k) {
      auto const& a = pl.segments_[k];
      auto const& b = l.segments[k];
      c.check(near(si::as_m(a.from_), b.from / 10.0, 1e-4) && near(si::as_m(a.to_), b.to / 10.0, 1e-4), "lines", "segment ", k,
              " of line ", l.id);
      c.check(a.signalling_ == (signalling.count(b.key) > 0) && a.lzb_ == (lzb.count(b.key) > 0) &&
                  a.etcs_ == (etcs.count(b.key) > 0),
              "line-equipment", "segment of kind ", b.key);
    }
    // any position is answered by the segment around it, outside by the nearest
    for (int q = 0; q < 6; ++q) {
      auto const& b = l.segments[c.r.below(l.segments.size())];
      auto const mid = (b.from + b.to) / 20.0;
      if (b.to - b.from < 10) continue;
      auto const& a = pl.segments_[static_cast<std::size_t>(&b - l.segments.data())];
      c.check(pl.has_signalling(si::from_m(mid)) == a.signalling_ && pl.has_etcs(si::from_m(mid)) == a.etcs_, "line-segment",
              "line ", l.id, " at ", mid);
    }
    c.check(pl.has_signalling(si::from_m(-5)) == pl.segments_.front().signalling_ &&
                pl.has_etcs(si::from_m(9e9)) == pl.segments_.back().etcs_,
            "line-segment", "outside of line ", l.id);
  }
  c.eq(i.lines_.size(), n.lines.size(), "lines", "lines");
}

// sections list their elements in the order of travel
CASES(I03) {
  world w;
  auto o = random_options(c);
  o.routes = false;
  w.generate(c.r, o);
  w.opts = plain();
  w.load();
  observe(c, w);
  if (!w.map_sections(c) || !w.map_elements(c)) return;
  auto const& n = w.n;
  auto const& g = w.i().graph_;
  auto const at = [&](int s, world::expected const& x) -> element::ptr {
    return x.what == 0 ? w.elem[x.a] : x.what == 1 ? w.mid.at({s, x.a}) : w.meta.at({s, x.a});
  };
  for (std::size_t k = 0; k < n.sections.size(); ++k) {
    auto const s = static_cast<int>(k);
    auto const& sec = g.sections_[w.section_id[k]];
    c.eq(static_cast<int>(sec.line_id_), n.sections[k].line, "section-line", "section ", k);
    std::vector<element::ptr> order[2], travel[2];
    for (int d = 0; d < 2; ++d) {
      for (auto const& x : w.section_order(s, d)) {
        auto const e = at(s, x);
        order[d].push_back(e);
        if (!e->is_directed_track_element() || e->rising() == (d == 1)) travel[d].push_back(e);
      }
    }
    std::vector<element::ptr> const rising(sec.rising_order_.begin(), sec.rising_order_.end()),
        falling(sec.falling_order_.begin(), sec.falling_order_.end());
    c.check(rising == order[1], "section-order", "rising order of section ", k);
    c.check(falling == order[0], "section-order", "falling order of section ", k);
    c.eq(sec.size(), order[1].size(), "section-size", "size");
    c.check(sec.first_rising() == rising.front() && sec.last_rising() == rising.back() && sec.first_falling() == falling.front() &&
                sec.last_falling() == falling.back(),
            "section-ends", "section ", k);

    auto const got = [](auto&& gen) {
      std::vector<element::ptr> v;
      for (auto const e : gen) v.push_back(e);
      return v;
    };
    using D = inf::direction;
    using S = inf::skip;
    c.check(got(sec.iterate<D::Rising, S::Yes>()) == travel[1], "section-iterate", "rising travel of section ", k);
    c.check(got(sec.iterate<D::Falling, S::Yes>()) == travel[0], "section-iterate", "falling travel of section ", k);
    c.check(got(sec.iterate<D::Rising, S::No>()) == order[1], "section-iterate", "all of section ", k, " rising");
    c.check(got(sec.iterate<D::Falling, S::No>()) == order[0], "section-iterate", "all of section ", k, " falling");

    for (int q = 0; q < 3; ++q) {
      int const d = c.r.chance(50) ? 1 : 0;
      auto const dir = d == 1 ? D::Rising : D::Falling;
      auto a = c.r.below(order[d].size()), b = c.r.below(order[d].size());
      if (a > b) std::swap(a, b);
      auto const& v = order[d];
      auto const sub = [&](std::size_t x, std::size_t y) {
        return std::vector<element::ptr>(v.begin() + static_cast<long>(x), v.begin() + static_cast<long>(y));
      };
      c.check(got(sec.from(v[a], dir)) == sub(a, v.size()), "section-from", "from ", a);
      c.check(got(sec.to(v[b], dir)) == sub(0, b + 1), "section-to", "to ", b);
      c.check(got(sec.from_to(v[a], v[b], dir)) == sub(a, b + 1), "section-from-to", a, " to ", b);
    }

    // length: by its ends, and along the way
    auto const& ms = n.sections[k];
    double const len = std::abs(n.elems[ms.e[0]].ports[ms.p[0]].km - n.elems[ms.e[1]].ports[ms.p[1]].km) / 10.0;
    c.check(near(si::as_m(sec.length_), len, 1e-4), "section-length", si::as_m(sec.length_), " expected ", len);
    for (int d = 0; d < 2; ++d) {
      c.check(inf::is_path(travel[d]), "section-path", "section ", k, " direction ", d, " is no path");
      // kilometres grow or fall along the way, so the distances add up
      c.check(near(si::as_m(inf::get_path_length_from_elements(travel[d])), len, 1e-3), "path-length", "elements: ",
              si::as_m(inf::get_path_length_from_elements(travel[d])), " expected ", len);
      c.check(near(si::as_m(inf::get_path_length_from_sections(travel[d])), len, 1e-3), "path-length", "sections: ",
              si::as_m(inf::get_path_length_from_sections(travel[d])), " expected ", len);
      for (std::size_t q = 0; q + 1 < travel[d].size(); ++q) {
        auto const dist = si::as_m(travel[d][q]->get_distance(travel[d][q + 1]));
        auto const want = std::abs(si::as_m(travel[d][q]->get_km(travel[d][q + 1]) - travel[d][q + 1]->get_km(travel[d][q])));
        c.check(near(dist, want, 1e-6), "distance", "distance of neighbours");
      }
    }
    // every element knows its section
    for (auto const e : rising) {
      auto const& ids = g.element_id_to_section_ids_[e->id()];
      c.check(std::count(ids.begin(), ids.end(), w.section_id[k]) == 1, "element-sections", e->get_type_str(), " ", e->id(),
              " does not know section ", w.section_id[k]);
    }
  }
  // and no other
  std::map<std::size_t, std::multiset<unsigned>> want;
  for (std::size_t s = 0; s < g.sections_.size(); ++s) {
    for (auto const e : g.sections_[s].rising_order_) want[e->id()].insert(static_cast<unsigned>(s));
  }
  for (auto const e : g.elements_) {
    auto const& ids = g.element_id_to_section_ids_[e->id()];
    c.eq(std::multiset<unsigned>(ids.begin(), ids.end()), want[e->id()], "element-sections", e->get_type_str(), " ", e->id());
  }
}

// stations own their elements, borders join two stations
CASES(I04) {
  world w;
  auto o = random_options(c);
  o.routes = false;
  o.stations = static_cast<int>(c.r.in(2, c.thorough_ ? 9 : 6));
  w.generate(c.r, o);
  // a neighbour that has no such border: the border leads nowhere
  w.opts = plain();
  w.load();
  observe(c, w);
  if (!w.map_sections(c) || !w.map_elements(c)) return;
  auto const& n = w.n;
  auto const& i = w.i();

  std::map<element::ptr, int> owner;
  for (std::size_t k = 0; k < n.elems.size(); ++k) owner[w.elem[k]] = w.parsed_station[n.elems[k].station];
  for (auto const& [k, e] : w.mid) owner[e] = w.parsed_station[n.sections[k.first].station];
  for (auto const& [k, e] : w.meta) owner[e] = w.parsed_station[n.sections[k.first].station];
  std::vector<std::multiset<element::ptr>> want(n.stations.size());
  for (auto const& [e, s] : owner) want[s].insert(e);
  for (auto const st : i.stations_) {
    c.check(std::multiset<element::ptr>(st->elements_.begin(), st->elements_.end()) == want[st->id_], "station-elements", "station ",
            st->ds100_, " has ", st->elements_.size(), " elements, expected ", want[st->id_].size());
    auto const it = i.ds100_to_station_.find(st->ds100_);
    c.check(it != std::end(i.ds100_to_station_) && it->second == st, "station-by-name", st->ds100_);
  }
  c.eq(i.ds100_to_station_.size(), n.stations.size(), "station-by-name", "names");
  c.eq(i.element_to_station_.size(), owner.size(), "element-station", "elements with a station");
  for (auto const& [e, s] : owner) {
    auto const it = i.element_to_station_.find(e->id());
    c.check(it != std::end(i.element_to_station_) && it->second == i.stations_[s], "element-station", e->get_type_str(), " ",
            e->id());
  }

  std::size_t pairs = 0;
  std::vector<std::map<element::ptr, int>> borders(n.stations.size());
  std::vector<std::set<soro::infra::station::ptr>> neigh(n.stations.size());
  for (std::size_t k = 0; k < n.elems.size(); ++k) {
    auto const& e = n.elems[k];
    if (e.k != BORDER || e.partner < 0) continue;
    ++pairs;
    borders[w.parsed_station[e.station]][w.elem[k]] = static_cast<int>(k);
    neigh[w.parsed_station[e.station]].insert(i.stations_[w.parsed_station[n.elems[e.partner].station]]);
  }
  c.stat("border_pairs", pairs / 2);
  for (auto const st : i.stations_) {
    auto const& b = borders[st->id_];
    c.eq(st->borders_.size(), b.size(), "border-count", "station ", st->ds100_);
    for (auto const& x : st->borders_) {
      auto const it = b.find(x.element_);
      if (!c.check(it != b.end(), "border", "border of ", st->ds100_, " at unexpected element")) continue;
      auto const& e = n.elems[it->second];
      c.check(x.station_ == st && x.neighbour_ == i.stations_[w.parsed_station[n.elems[e.partner].station]] &&
                  x.neighbour_element_ == w.elem[e.partner] && static_cast<int>(x.line_) == e.ports[0].line &&
                  x.track_sign_ == e.sign && x.low_border_ == e.ports[0].at_start,
              "border", "border of ", st->ds100_, " to ", e.neighbour);
    }
    auto const ns = st->neighbours();
    c.check(std::set<soro::infra::station::ptr>(ns.begin(), ns.end()) == neigh[st->id_] && ns.size() == neigh[st->id_].size(),
            "station-neighbours", st->ds100_);
  }
  // one section more between every pair of borders
  c.eq(i.graph_.sections_.size(), n.sections.size() + pairs / 2, "border-sections", "sections");
  std::set<unsigned> own;
  for (auto const s : w.section_id) own.insert(s);
  std::set<std::set<element::ptr>> joined, joint;
  for (std::size_t s = 0; s < i.graph_.sections_.size(); ++s) {
    if (own.count(static_cast<unsigned>(s))) continue;
    auto const& sec = i.graph_.sections_[s];
    if (!c.check(sec.size() == 2 && sec.rising_order_.front() == sec.falling_order_.back() &&
                     sec.rising_order_.back() == sec.falling_order_.front() && near(si::as_m(sec.length_), 0),
                 "border-sections", "section ", s))
      continue;
    joined.insert({sec.rising_order_.front(), sec.rising_order_.back()});
    // rising: leaves a section that ends at its border, enters one that starts there
    for (std::size_t k = 0; k < n.elems.size(); ++k) {
      if (n.elems[k].k != BORDER) continue;
      if (w.elem[k] == sec.rising_order_.front()) c.check(!n.elems[k].ports[0].at_start, "border-sections", "direction of section ", s);
      if (w.elem[k] == sec.rising_order_.back()) c.check(n.elems[k].ports[0].at_start, "border-sections", "direction of section ", s);
    }
  }
  for (std::size_t k = 0; k < n.elems.size(); ++k) {
    auto const& e = n.elems[k];
    if (e.k == BORDER && e.partner >= 0) joint.insert({w.elem[k], w.elem[e.partner]});
  }
  c.check(joined == joint, "border-sections", "the sections between borders");
}
