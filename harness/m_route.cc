#include "routes.h"

#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"

using namespace mdl;
namespace inf = soro::infra;

namespace {
infrastructure_options plain() {
  infrastructure_options o;
  o.interlocking_ = false;
  o.exclusions_ = false;
  o.layout_ = false;
  return o;
}

bool setup(vh::ctx& c, world& w) {
  w.generate(c.r, route_options(c));
  w.opts = plain();
  w.load();
  c.stat("routes", w.n.routes.size());
  for (auto const& r : w.n.routes) {
    if (r.course.size() > 8) c.stat("many_decisions");
  }
  if (w.n.routes.size() > 2) c.nontrivial();
  for (auto const& r : w.n.routes) c.sig(r.states.size() * 31 + r.omitted.size() * 7 + r.spls.size());
  if (c.case_ < 400) {
    std::ostringstream o;
    o << w.n.stations.size() << " stations, " << w.n.routes.size() << " station routes";
    if (!w.n.routes.empty()) o << ", first of " << w.n.routes[0].states.size() << " nodes";
    c.note(o.str());
  }
  return w.map(c);
}
}  // namespace

// station routes are the written paths with the written details
CASES(I05) {
  world w;
  if (!setup(c, w)) return;
  auto const& n = w.n;
  auto const& i = w.i();
  route_view const v(n);
  if (!c.eq(i.station_routes_.size(), v.r.size(), "route-count", "station routes")) return;
  std::vector<std::vector<int>> preds(n.states.size());
  for (std::size_t s = 0; s < n.states.size(); ++s) {
    if (n.states[s].next >= 0) preds[n.states[s].next].push_back(static_cast<int>(s));
    if (n.states[s].branch >= 0) preds[n.states[s].branch].push_back(static_cast<int>(s));
  }
  for (std::size_t k = 0; k < v.r.size(); ++k) {
    auto const& r = *v.r[k];
    auto const sr = i.station_routes_[k];
    auto const id = "route " + std::to_string(k) + " " + r.name;
    c.check(sr->id_ == k && std::string(sr->name_) == r.name, "route-identity", id, " is ", sr->name_);
    c.check(sr->station_ == i.stations_[w.parsed_station[r.station]], "route-station", id);
    std::vector<node::ptr> want;
    for (auto const s : r.states) want.push_back(w.node_of[s]);
    if (!c.check(std::vector<node::ptr>(sr->nodes().begin(), sr->nodes().end()) == want, "route-path", id, ": ", sr->nodes().size(),
                 " nodes, expected ", want.size()))
      continue;
    c.check(sr->size() == want.size() && sr->nodes(0) == want.front(), "route-path", id);
    c.check(sr->path_->start_ == want.front()->element_ && sr->path_->end_ == want.back()->element_ &&
                sr->path_->size() == want.size(),
            "route-ends", id);
    std::vector<bool> course;
    for (auto const d : sr->path_->course_) course.push_back(d == inf::course_decision::BRANCH);
    c.check(course == r.course, "route-course", id);

    auto const positions = [&](auto const& p) { return std::vector<int>(p.begin(), p.end()); };
    std::vector<int> starts, ends;
    for (std::size_t p = 0; p < r.states.size(); ++p) {
      if (n.type_of(r.states[p]) == type::ETCS_START) starts.push_back(static_cast<int>(p));
      if (n.type_of(r.states[p]) == type::ETCS_END) ends.push_back(static_cast<int>(p));
    }
    c.eq(positions(sr->path_->main_signals_), r.signals, "route-signals", id);
    c.eq(positions(sr->path_->etcs_starts_), starts, "route-etcs", id);
    c.eq(positions(sr->path_->etcs_ends_), ends, "route-etcs", id);
    c.eq(sr->requires_etcs(i.lines_), needs_etcs(n, r), "route-requires-etcs", id);
    c.eq(positions(sr->omitted_nodes_), std::vector<int>(r.omitted.begin(), r.omitted.end()), "route-omitted", id);

    std::vector<std::pair<int, std::pair<speed_spec, int>>> spls;
    for (auto const& [p, list] : r.spls) {
      for (auto const& s : list) spls.push_back({p, s});
    }
    if (c.eq(sr->extra_speed_limits_.size(), spls.size(), "route-speed-limits", id)) {
      for (std::size_t q = 0; q < spls.size(); ++q) {
        auto const& got = sr->extra_speed_limits_[q];
        c.check(got.node_ == want[spls[q].first] && got.element_ == want[spls[q].first]->element_, "route-speed-limits", id,
                ": place of limit ", q);
        check_spl(c, got, spls[q].second.first,
                  spls[q].second.second == 0 ? inf::speed_limit::type::GENERAL_ALLOWED : inf::speed_limit::type::INVALID);
        c.stat("extra_speed_limits");
      }
    }

    auto const opt = [](auto const& o) { return o.has_value() ? static_cast<int>(*o) : -1; };
    c.eq(opt(sr->passenger_halt_), r.passenger, "route-halt", id, ": passenger");
    c.eq(opt(sr->freight_halt_), r.freight, "route-halt", id, ": freight");
    c.eq(opt(sr->runtime_checkpoint_), r.checkpoint, "route-checkpoint", id);
    using soro::rs::FreightTrain;
    c.check(opt(sr->get_halt_idx(FreightTrain::NO)) == r.passenger && opt(sr->get_halt_idx(FreightTrain::YES)) == r.freight,
            "route-halt", id);
    auto const same = [&](node::optional_ptr const& p, int pos) {
      return p.has_value() == (pos >= 0) && (pos < 0 || *p == want[pos]);
    };
    c.check(same(sr->get_halt_node(FreightTrain::NO), r.passenger) && same(sr->get_halt_node(FreightTrain::YES), r.freight),
            "route-halt", id, ": nodes");
    c.check(same(sr->get_runtime_checkpoint_node(), r.checkpoint), "route-checkpoint", id, ": node");
    for (int a = 0; a < 11; ++a) {
      c.check(sr->attributes_[a] == (r.attributes.count(a) > 0), "route-attributes", id, ": attribute ", a);
    }
    c.eq(sr->electrified(), r.attributes.count(1) > 0, "route-attributes", id, ": electrified");

    c.check(near(si::as_m(sr->length_), length_of(n, r.states), 1e-3), "route-length", id, ": ", si::as_m(sr->length_),
            " expected ", length_of(n, r.states));
    c.check(inf::is_path(sr->nodes()), "route-is-path", id);

    auto const gate = [&](int s) {
      auto const t = n.type_of(s);
      return t == type::BORDER || t == type::TRACK_END;
    };
    bool const in = gate(r.states.front()), out = gate(r.states.back());
    c.check(sr->is_through_route() == (in && out) && sr->is_in_route() == (in && !out) && sr->is_out_route() == (!in && out) &&
                sr->is_contained_route() == (!in && !out),
            "route-class", id);

    auto const next = n.states[r.states.back()].next;
    auto const to = next >= 0 && n.station_of(next) != r.station ? w.parsed_station[n.station_of(next)] : -1;
    auto const& pr = preds[r.states.front()];
    auto const from = !pr.empty() && n.station_of(pr[0]) != r.station ? w.parsed_station[n.station_of(pr[0])] : -1;
    auto const stid = [](auto const& o) { return o.has_value() ? static_cast<int>((*o)->id_) : -1; };
    c.eq(stid(sr->to_station_), to, "route-neighbour", id, ": to");
    c.eq(stid(sr->from_station_), from, "route-neighbour", id, ": from");

    // every way to walk it
    auto const size = r.states.size();
    check_traversal(c, w, {{&r, {0, size}}}, i, sr->iterate(), "route-iterate", id);
    for (int q = 0; q < 3; ++q) {
      auto a = c.r.below(size + 1), b = c.r.below(size + 1);
      if (a > b) std::swap(a, b);
      auto const ia = static_cast<node::idx>(a), ib = static_cast<node::idx>(b);
      check_traversal(c, w, {{&r, {a, size}}}, i, sr->from(ia), "route-iterate", id + " from " + std::to_string(a));
      check_traversal(c, w, {{&r, {0, b}}}, i, sr->to(ib), "route-iterate", id + " to " + std::to_string(b));
      check_traversal(c, w, {{&r, {a, b}}}, i, sr->from_to(ia, ib), "route-iterate",
                      id + " from " + std::to_string(a) + " to " + std::to_string(b));
    }
  }
  // the same path is stored once
  std::set<inf::station_route::path const*> paths;
  std::set<std::pair<std::pair<std::vector<int>, std::vector<bool>>, std::vector<int>>> distinct;
  for (std::size_t k = 0; k < v.r.size(); ++k) {
    paths.insert(i.station_routes_[k]->path_);
    distinct.insert({{v.r[k]->states, v.r[k]->course}, v.r[k]->signals});
  }
  c.eq(paths.size(), distinct.size(), "route-paths-shared", "paths");
  c.eq(i.station_route_paths_.size(), distinct.size(), "route-paths-shared", "stored paths");

  // stations find their routes
  for (std::size_t s = 0; s < n.stations.size(); ++s) {
    auto const st = i.stations_[w.parsed_station[s]];
    std::map<std::string, int> names;
    std::map<inf::element_id, std::set<int>> first;
    for (auto const ri : n.routes_of[s]) {
      auto const& r = n.routes[ri];
      if (r.id < 0) continue;
      names[r.name] = r.id;
      first[w.element_of(r.states.front())->id()].insert(r.id);
    }
    std::map<std::string, int> got;
    for (auto const& [name, sr] : st->station_routes_) got[std::string(name)] = static_cast<int>(sr->id_);
    c.eq(got, names, "station-routes", "routes of ", st->ds100_);
    std::map<inf::element_id, std::set<int>> gf;
    std::size_t cnt = 0;
    for (auto const& [e, list] : st->element_to_routes_) {
      for (auto const sr : list) gf[e].insert(static_cast<int>(sr->id_)), ++cnt;
    }
    c.check(gf == first && cnt == names.size(), "routes-by-element", st->ds100_);
  }
}

// which routes may follow each other
CASES(I06) {
  world w;
  if (!setup(c, w)) return;
  auto const& n = w.n;
  auto const& i = w.i();
  route_view const v(n);
  if (!c.eq(i.station_routes_.size(), v.r.size(), "route-count", "station routes")) return;
  auto const& g = i.station_route_graph_;
  std::vector<std::set<int>> pred(v.r.size());
  for (std::size_t k = 0; k < v.r.size(); ++k) {
    auto const want = v.successors(n, static_cast<int>(k));
    for (auto const x : want) pred[x].insert(static_cast<int>(k));
    std::multiset<int> got;
    for (auto const sr : g.successors_[k]) got.insert(static_cast<int>(sr->id_));
    c.eq(got, std::multiset<int>(want.begin(), want.end()), "route-successors", "after route ", k, ":");
    c.stat("successions", want.size());
    for (auto const sr : g.successors_[k]) {
      c.check(i.station_routes_[k]->nodes().back()->next_node_ == sr->nodes().front(), "route-successors", "route ", sr->id_,
              " does not start where ", k, " leads to");
    }
  }
  for (std::size_t k = 0; k < v.r.size(); ++k) {
    std::multiset<int> got;
    for (auto const sr : g.predeccesors_[k]) got.insert(static_cast<int>(sr->id_));
    c.eq(got, std::multiset<int>(pred[k].begin(), pred[k].end()), "route-predecessors", "before route ", k, ":");
    auto const sr = i.station_routes_[k];
    c.eq(sr->can_start_an_interlocking(g), !v.r[k]->signals.empty() || pred[k].empty(), "route-can-start", "route ", k);
    c.eq(sr->can_end_an_interlocking(g), !v.r[k]->signals.empty() || v.successors(n, static_cast<int>(k)).empty(), "route-can-end",
         "route ", k);
  }
}
