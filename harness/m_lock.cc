#include "lockw.h"

#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"

using namespace mdl;
namespace inf = soro::infra;


// the interlocking routes are the ways from signal to signal, all of them
CASES(I07) {
  lock_world w;
  if (!w.prepare(c)) return;
  if (!w.map(c)) return;
  auto const& irs = w.i().interlocking_.routes_;
  std::vector<lock_route> got;
  for (std::size_t k = 0; k < irs.size(); ++k) {
    c.check(irs[k].id_ == k, "route-id", "route ", k, " has id ", irs[k].id_);
    got.push_back(w.of(irs[k]));
  }
  auto sorted = got;
  std::sort(sorted.begin(), sorted.end());
  std::vector<lock_route> missing, extra;
  std::set_difference(w.lv->all.begin(), w.lv->all.end(), sorted.begin(), sorted.end(), std::back_inserter(missing));
  std::set_difference(sorted.begin(), sorted.end(), w.lv->all.begin(), w.lv->all.end(), std::back_inserter(extra));
  for (auto const& r : missing) c.check(false, "route-missing", lock_world::show(r));
  for (auto const& r : extra) c.check(false, "route-unexpected", lock_world::show(r));
  c.eq(sorted.size(), w.lv->all.size(), "route-count", "interlocking routes");
  if (!missing.empty() || !extra.empty()) return;

  // independent of the way they were expected: every one is a way a train can take
  for (std::size_t k = 0; k < irs.size(); ++k) {
    std::vector<node::ptr> nodes;
    std::vector<bool> om;
    for (auto const rn : irs[k].iterate(*w.infra)) {
      nodes.push_back(rn.node_);
      om.push_back(rn.omitted_);
    }
    for (std::size_t q = 0; q + 1 < nodes.size(); ++q) {
      if (!c.check(nodes[q]->next_node_ == nodes[q + 1] || nodes[q]->branch_node_ == nodes[q + 1], "route-connected", "route ", k,
                   " jumps after node ", q))
        break;
      if (q > 0) {
        c.check(!nodes[q]->is(type::MAIN_SIGNAL) || om[q], "route-passes-signal", "route ", k, " passes a main signal at node ", q);
      }
    }
    if (!nodes.empty()) {
      auto const stop = [&](node::ptr p, bool omitted) { return p->is(type::MAIN_SIGNAL) && !omitted; };
      auto const first_sr = w.i().station_routes_[irs[k].station_routes_.front()];
      auto const last_sr = w.i().station_routes_[irs[k].station_routes_.back()];
      c.check(stop(nodes.front(), om.front()) ||
                  (nodes.front() == first_sr->nodes().front() && w.lv->pred[first_sr->id_].empty()),
              "route-start", "route ", k, " starts at a ", nodes.front()->element_->get_type_str());
      c.check(stop(nodes.back(), om.back()) || (nodes.back() == last_sr->nodes().back() && w.lv->succ[last_sr->id_].empty()),
              "route-end", "route ", k, " ends at a ", nodes.back()->element_->get_type_str());
    }
  }
}

// lookups agree with the routes, and every traversal yields the route's nodes
CASES(I08) {
  lock_world w;
  if (!w.prepare(c)) return;
  if (!w.map(c)) return;
  auto const& i = w.i();
  auto const& irs = i.interlocking_.routes_;
  auto const& n = w.n;
  auto const& R = w.lv->v.r;
  auto const& inf_ = *w.infra;
  std::map<inf::node::id, std::multiset<unsigned>> starting, ending;
  std::map<inf::node::id, std::set<unsigned>> halting;
  std::map<unsigned, std::multiset<unsigned>> of_sr;
  std::map<unsigned, std::set<unsigned>> of_station;

  auto const budget = c.thorough_ ? 400u : 60u;
  for (auto const& ir : irs) {
    auto const r = w.of(ir);
    struct piece {
      int sr;
      std::size_t from, to;
    };
    std::vector<piece> ps;
    for (std::size_t k = 0; k < r.srs.size(); ++k) {
      ps.push_back({r.srs[k], k == 0 ? r.start : 0, k + 1 == r.srs.size() ? r.end : R[r.srs[k]]->states.size()});
    }
    auto const node_at = [&](piece const& p, std::size_t idx) { return w.node_of[R[p.sr]->states[idx]]; };
    auto const first = node_at(ps.front(), r.start), last = node_at(ps.back(), r.end - 1);
    starting[first->id_].insert(ir.id_);
    ending[last->id_].insert(ir.id_);
    for (auto const& p : ps) {
      of_sr[static_cast<unsigned>(p.sr)].insert(ir.id_);
      of_station[static_cast<unsigned>(w.parsed_station[R[p.sr]->station])].insert(ir.id_);
      for (auto const h : {R[p.sr]->passenger, R[p.sr]->freight}) {
        if (h >= 0 && static_cast<std::size_t>(h) >= p.from && static_cast<std::size_t>(h) < p.to) {
          halting[node_at(p, static_cast<std::size_t>(h))->id_].insert(ir.id_);
        }
      }
    }
    if (!c.r.chance(irs.size() > budget ? static_cast<unsigned>(100 * budget / irs.size() + 1) : 100)) continue;

    auto const id = "interlocking route " + lock_world::show(r);
    c.check(ir.first_node(inf_) == first && ir.last_node(inf_) == last, "lock-ends", id);
    c.check(ir.first_sr_id() == static_cast<unsigned>(r.srs.front()) && ir.last_sr_id() == static_cast<unsigned>(r.srs.back()) &&
                ir.first_sr(inf_)->id_ == ir.first_sr_id() && ir.last_sr(inf_)->id_ == ir.last_sr_id(),
            "lock-ends", id);
    for (std::size_t k = 0; k < r.srs.size(); ++k) {
      auto const o = static_cast<inf::interlocking_route::sr_offset>(k);
      c.check(ir.sr_id(o) == static_cast<unsigned>(r.srs[k]) && ir.sr(o, inf_)->id_ == ir.sr_id(o), "lock-sr", id);
    }
    c.check(ir.starts_on_ms(inf_) == first->is(type::MAIN_SIGNAL) && ir.ends_on_ms(inf_) == last->is(type::MAIN_SIGNAL) &&
                ir.starts_on_section(inf_) == !soro::infra::is_track_element(first->type()) &&
                ir.ends_on_section(inf_) == !soro::infra::is_track_element(last->type()),
            "lock-ends", id, ": kinds of its ends");
    std::size_t size = 0;
    for (auto const& p : ps) size += p.to - p.from;
    c.eq(static_cast<std::size_t>(ir.size(inf_)), size, "lock-size", id);

    std::vector<int> srs;
    for (auto const& sr : ir.station_routes(inf_)) srs.push_back(static_cast<int>(sr.id_));
    c.eq(srs, r.srs, "lock-station-routes", id);
    std::size_t k = 0;
    for (auto const& sp : ir.iterate_station_routes(i)) {
      if (!c.check(k < ps.size(), "lock-sub-paths", id)) break;
      c.check(static_cast<int>(sp.station_route_->id_) == ps[k].sr && sp.from_ == ps[k].from && sp.to_ == ps[k].to, "lock-sub-paths",
              id, ": part ", k);
      ++k;
    }
    c.eq(k, ps.size(), "lock-sub-paths", id);

    for (int q = 0; q < 8; ++q) {
      auto const s = c.r.chance(60) ? r.srs[c.r.below(r.srs.size())] : static_cast<int>(c.r.below(R.size()));
      auto const idx = c.r.below(R[s]->states.size());
      bool want = false;
      for (auto const& p : ps) want |= p.sr == s && idx >= p.from && idx < p.to;
      c.eq(ir.contains(static_cast<inf::station_route::id>(s), static_cast<node::idx>(idx)), want, "lock-contains", id, ": ", s, "[", idx,
           "]");
    }

    // traversals
    using parts = std::vector<std::pair<route const*, std::pair<std::size_t, std::size_t>>>;
    auto const cut = [&](std::size_t a, std::size_t x, std::size_t b, std::size_t y) {
      parts v;
      for (auto q = a; q <= b; ++q) v.push_back({R[ps[q].sr], {q == a ? x : ps[q].from, q == b ? y : ps[q].to}});
      return v;
    };
    auto const L = ps.size() - 1;
    check_traversal(c, w, cut(0, r.start, L, r.end), i, ir.iterate(inf_), "lock-iterate", id);
    std::vector<node::ptr> ns;
    for (auto const rn : ir.iterate(inf_)) ns.push_back(rn.node_);
    c.check(inf::is_path(ns), "lock-is-path", id);
    for (int q = 0; q < 3; ++q) {
      auto a = c.r.below(ps.size()), b = c.r.below(ps.size());
      if (a > b) std::swap(a, b);
      auto x = static_cast<std::size_t>(c.r.in(static_cast<long>(ps[a].from), static_cast<long>(ps[a].to)));
      auto y = static_cast<std::size_t>(c.r.in(static_cast<long>(ps[b].from), static_cast<long>(ps[b].to)));
      if (a == b && x > y) std::swap(x, y);
      auto const A = static_cast<inf::station_route::id>(ps[a].sr), B = static_cast<inf::station_route::id>(ps[b].sr);
      auto const X = static_cast<node::idx>(x), Y = static_cast<node::idx>(y);
      check_traversal(c, w, cut(a, x, b, y), i, ir.from_to(A, X, B, Y, inf_), "lock-from-to", id);
      check_traversal(c, w, cut(a, x, L, r.end), i, ir.from(A, X, inf_), "lock-from", id);
      check_traversal(c, w, cut(0, r.start, b, y), i, ir.to(B, Y, inf_), "lock-to", id);
    }
    // which routes follow
    auto const& other = irs[c.r.below(irs.size())];
    auto const ro = w.of(other);
    auto const other_last = w.node_of[R[ro.srs.back()]->states[ro.end - 1]];
    c.eq(ir.follows(other, inf_), first == other_last, "lock-follows", id, " after ", lock_world::show(ro));
    if (auto const& e = i.interlocking_.ending_at_[first->id_]; !e.empty()) {
      c.check(ir.follows(irs[e[c.r.below(e.size())]], inf_), "lock-follows", id);
      c.stat("following");
    }
    c.stat("routes_walked");
  }

  auto const& L = i.interlocking_;
  auto const ms = [](auto const& v) { return std::multiset<unsigned>(v.begin(), v.end()); };
  for (std::size_t k = 0; k < i.graph_.nodes_.size(); ++k) {
    auto const id = static_cast<inf::node::id>(k);
    c.eq(ms(L.starting_at_[k]), starting[id], "starting-at", "node ", k);
    c.eq(ms(L.ending_at_[k]), ending[id], "ending-at", "node ", k);
    // a halt may be a passenger and a freight halt
    c.check(std::set<unsigned>(L.halting_at_[k].begin(), L.halting_at_[k].end()) == halting[id], "halting-at", "node ", k, ": ",
            L.halting_at_[k].size(), " routes, expected ", halting[id].size());
  }
  for (std::size_t k = 0; k < R.size(); ++k) {
    c.eq(ms(L.sr_to_participating_irs_[k]), of_sr[static_cast<unsigned>(k)], "routes-of-station-route", "station route ", k);
  }
  for (std::size_t k = 0; k < n.stations.size(); ++k) {
    std::multiset<unsigned> const want(of_station[static_cast<unsigned>(k)].begin(), of_station[static_cast<unsigned>(k)].end());
    c.eq(ms(L.station_to_irs_[k]), want, "routes-of-station", "station ", k);
  }
  c.stat("halts", halting.size());
}
