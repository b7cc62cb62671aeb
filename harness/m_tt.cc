// T03, T04, I12: what is read from a timetable, the path of its trains, and
// their rolling stock.
#include "tt.h"

using namespace mdl;
namespace inf = soro::infra;
namespace tt = soro::tt;

namespace {



std::string show(train_spec const& t) {
  std::ostringstream o;
  o << t.main << "/" << t.sub << (t.freight ? " freight" : " passenger") << " over";
  for (auto const& p : t.points) o << " " << p.route << (p.type != 0 ? "H" : p.departure >= 0 ? "t" : "");
  return o.str();
}

bool measurable(point_spec const& p) { return p.type != 0 || p.departure >= 0; }

// loads the timetable; nullptr when it was (rightly or wrongly) refused
std::unique_ptr<tt::timetable> load_timetable(vh::ctx& c, tt_world const& w, char const* key) {
  tt::timetable_options opts;
  opts.timetable_path_ = w.tt_dir;
  std::unique_ptr<tt::timetable> t;
  std::string what;
  try {
    if (c.r.chance(50)) {
      t = std::make_unique<tt::timetable>(opts, *w.infra);
    } else {
      auto r = tt::try_parsing_timetable(opts, *w.infra);
      if (r) t = std::make_unique<tt::timetable>(std::move(*r));
    }
  } catch (std::exception const& e) {
    what = e.what();
  }
  c.check((t != nullptr) == !w.wrong_version, key, w.wrong_version ? "made for another network but accepted" : "refused ",
          what);
  return t;
}

// which trains are expected to be read
std::vector<std::size_t> usable(tt_world const& w) {
  std::vector<std::size_t> v;
  for (auto const& f : w.files) {
    for (auto const g : f) {
      bool ok = true;
      for (auto const s : w.groups[g]) ok = ok && w.specs[s].why == obstacle::NONE;
      if (ok) v.insert(v.end(), w.groups[g].begin(), w.groups[g].end());
    }
  }
  return v;
}

bool prepare(vh::ctx& c, tt_world& w, bool only_good) {
  if (!w.prepare(c) || !w.map(c)) return false;
  if (w.i().interlocking_.routes_.size() != w.lv->all.size()) return false;
  w.wrong_version = c.r.chance(only_good ? 0 : 4);
  w.other_files = c.r.chance(only_good ? 0 : 15);
  w.long_stops = !only_good;
  w.random_timetable(c, only_good, c.thorough_ ? 40 : 16);
  return !w.specs.empty();
}
}  // namespace

// the trains of a timetable are exactly the usable ones, with the written data
CASES(T03) {
  tt_world w;
  if (!prepare(c, w, false)) return;
  auto const t = load_timetable(c, w, "timetable-accepted");
  if (t == nullptr) {
    c.stat("refused");
    return;
  }
  auto const& trains = (*t)->trains_;
  std::map<unsigned, std::size_t> spec_of;
  for (auto const s : usable(w)) spec_of[w.specs[s].main] = s;
  std::set<unsigned> seen;
  for (std::size_t k = 0; k < trains.size(); ++k) {
    auto const& x = trains[k];
    c.check(x.id_ == k, "train-id", "train ", k, " has id ", x.id_);
    c.check(seen.insert(x.number_.main_).second, "train-once", x.number_.main_);
    auto const it = spec_of.find(x.number_.main_);
    if (it == spec_of.end()) {
      auto const s = x.number_.main_ - 100;
      c.check(false, "train-unusable", "read ", s < w.specs.size() ? show(w.specs[s]) : "?", " ways ",
              s < w.specs.size() ? w.specs[s].ways.size() : 0, " why ", s < w.specs.size() ? static_cast<int>(w.specs[s].why) : -1);
      continue;
    }
    auto const& s = w.specs[it->second];
    c.stat("trains");
    c.sig(s.main * 1000 + s.points.size());
    c.check(x.number_.sub_ == s.sub, "train-number", x.number_.sub_, " ", s.sub);
    std::vector<std::int64_t> days;
    for (auto const d : x.departures()) days.push_back(static_cast<std::int64_t>(d.time_since_epoch().count()) / 86400);
    c.check(days == std::vector<std::int64_t>(s.days.begin(), s.days.end()), "train-days", "runs on ", days.size(),
            " days, expected ", s.days.size());
    c.check(!x.break_in_ && !x.break_out_, "train-break", show(s));
    c.check(x.is_freight() == s.freight && !x.has_ctc(), "train-kind", show(s));
    c.check(near(si::as_m(x.physics_.length()), s.length, 1e-3), "train-length", si::as_m(x.physics_.length()), " ", s.length);
    c.check(near(x.physics_.weight().val_, s.weight * 1000, 1e-2), "train-weight", x.physics_.weight().val_, " ",
            s.weight);
    auto v = s.max_speed;
    double force = 0, resistance = 0;
    auto const at = static_cast<double>(c.r.in(1, 3900)) / 10;
    for (auto const& [a, b] : s.units) {
      auto const& u = w.stock[a].variants[b];
      v = std::min(v, static_cast<double>(u.max_speed));
      auto const* p = &u.pieces.front();
      for (auto const& q : u.pieces) {
        if (q.from <= at) p = &q;
      }
      force += 1000 * (p->f1 + p->f2 * at + p->f3 * at * at);
      auto const weight = u.weight * 1000.0;
      resistance += (u.r1 / 1000 + u.r2 / 1000 * at) * weight * 9.81 + u.r3 * 9.81 * at * at;
    }
    c.check(near(si::as_km_h(x.physics_.max_speed()), v, 1e-6), "train-speed", si::as_km_h(x.physics_.max_speed()), " ", v);
    auto const speed = si::from_km_h(at);
    c.check(near(x.physics_.tractive_force(speed).val_, force, 1e-2 + std::abs(force) * 1e-4), "train-force", "at ", at, " ",
            x.physics_.tractive_force(speed).val_, " expected ", force);
    c.check(near(x.physics_.resistive_force(speed).val_, resistance, 1e-2 + std::abs(resistance) * 1e-4), "train-resistance",
            "at ", at, " ", x.physics_.resistive_force(speed).val_, " expected ", resistance);
    std::vector<point_spec> want;
    for (auto const& p : s.points) {
      if (measurable(p)) want.push_back(p);
    }
    auto const& got = x.sequence_points_;
    if (!c.eq(got.size(), want.size(), "train-points", show(s))) continue;
    for (std::size_t q = 0; q < want.size(); ++q) {
      auto const& a = got[q];
      auto const& b = want[q];
      using ty = tt::sequence_point::type;
      static ty const types[] = {ty::TRANSIT, ty::TRANSIT, ty::OPERATIONS, ty::REQUEST, ty::PASSENGER};
      c.check(a.type_ == types[b.type], "point-type", static_cast<int>(a.type_), " ", b.type);
      c.check(static_cast<int>(a.station_route_) == b.route, "point-route", a.station_route_, " ", b.route);
      c.check(secs(a.arrival_) == b.arrival, "point-arrival", secs(a.arrival_), " ", b.arrival);
      c.check(secs(a.departure_) == b.departure, "point-departure", secs(a.departure_), " ", b.departure);
      c.check(secs(a.min_stop_time_) == b.stop_seconds, "point-stop-time", secs(a.min_stop_time_), " ", b.stop_time);
    }
  }
  for (auto const& [main, s] : spec_of) {
    if (seen.count(main) == 0) {
      auto const& t = w.specs[s];
      std::ostringstream o;
      o << show(t);
      for (auto const& p : t.points) {
        auto const& r = w.sr(p.route);
        o << " [" << p.route << " n=" << r.states.size() << " halt=" << w.halt_of(p.route, t.freight) << "]";
      }
      for (auto const& [l, id] : w.ir_of) {
        bool hit = false;
        for (auto const& p : t.points) hit = hit || std::find(l.srs.begin(), l.srs.end(), p.route) != l.srs.end();
        if (hit) o << " " << id << "=" << lock_world::show(l) << (std::find(t.ways[0].begin(), t.ways[0].end(), id) != t.ways[0].end() ? "*" : "");
      }
      c.check(false, "train-missing", o.str());
    }
  }
  if (spec_of.size() > 1) c.nontrivial();
  c.stat("dropped", w.specs.size() - spec_of.size());
  if (w.other_files) c.stat("other_files");
  if (!seen.empty() && seen.size() == spec_of.size()) {
    std::int64_t a = INT64_MAX, z = 0;
    for (auto const& [main, k] : spec_of) {
      auto const& s = w.specs[k];
      if (s.days.empty()) {
        c.stat("trains_on_no_day");
        continue;
      }
      a = std::min(a, *s.days.begin() * 86400 + s.points.front().departure);
      z = std::max(z, *s.days.rbegin() * 86400 + s.points.back().arrival);
    }
    auto const iv = (*t)->interval_;
    c.check(z == 0 || (static_cast<std::int64_t>(iv.start_.time_since_epoch().count()) == a &&
                       static_cast<std::int64_t>(iv.end_.time_since_epoch().count()) == z),
            "timetable-interval", iv.start_.time_since_epoch().count(), "..", iv.end_.time_since_epoch().count(), " expected ",
            a, "..", z);
  }
  c.check((*t)->source_.c_str() == w.tt_dir.filename().string(), "timetable-source", "");
}

// a train's path covers its way from the first to the last halt
CASES(T04) {
  tt_world w;
  if (!prepare(c, w, true)) return;
  auto const t = load_timetable(c, w, "timetable-accepted");
  if (t == nullptr) return;
  auto const& infra = *w.infra;
  auto const& n = w.n;
  for (auto const& x : (*t)->trains_) {
    auto const& s = w.specs[x.number_.main_ - 100];
    c.sig(s.main * 1000 + s.points.size() * 10 + x.path_.size());
    if (x.path_.size() > 1) c.nontrivial();
    c.stat("paths");
    c.stat("path_routes", x.path_.size());
    // the path: a known way along the station routes
    std::vector<int> path(x.path_.begin(), x.path_.end());
    std::ostringstream o;
    o << show(s) << " path";
    for (auto const p : path) o << " " << lock_world::show(w.of(w.i().interlocking_.routes_[p]));
    if (!c.check(std::find(s.ways.begin(), s.ways.end(), path) != s.ways.end(), "path-way", o.str(), " of ", s.ways.size()))
      continue;
    for (std::size_t k = 0; k + 1 < path.size(); ++k) {
      auto const& a = w.i().interlocking_.routes_[path[k]];
      auto const& b = w.i().interlocking_.routes_[path[k + 1]];
      c.check(a.last_node(infra) == b.first_node(infra), "path-connected", o.str());
    }
    // walking yields every node from halt to halt, with the points on the way
    auto const want = w.walk(s);
    double length = 0;
    std::vector<int> states;
    for (auto const& e : want) states.push_back(e.state);
    length = length_of(n, states);
    std::size_t k = 0;
    std::size_t halts = 0;
    bool ok = true;
    for (auto const tn : x.iterate(infra)) {
      if (!c.check(k < want.size(), "walk-longer", o.str())) {
        ok = false;
        break;
      }
      auto const& e = want[k];
      auto const p = w.node_of[e.state];
      ok = c.check(tn.node_ == p, "walk-node", o.str(), " at ", k, " of ", want.size());
      ok = ok && c.check(tn.omitted_ == e.omitted, "walk-omitted", o.str(), " at ", k);
      ok = ok && c.check(tn.sequence_point_.has_value() == (e.point >= 0), "walk-point", o.str(), " at ", k, " expected ", e.point);
      if (ok && e.point >= 0) {
        c.check(*tn.sequence_point_ == &x.sequence_points_[static_cast<std::size_t>(e.point)], "walk-point-which", o.str());
        ++halts;
      }
      ok = ok && c.check(tn.omitted() == (e.omitted || (p->is(type::HALT) && e.point < 0)), "walk-stops-only-planned",
                         o.str(), " at ", k);
      if (!ok) break;
      ++k;
    }
    if (!ok) continue;
    c.eq(k, want.size(), "walk-shorter", o.str());
    c.eq(halts, x.sequence_points_.size(), "walk-all-points", o.str());
    c.check(near(si::as_m(x.path_length(infra)), length, 1e-3 + length * 1e-5), "path-length", si::as_m(x.path_length(infra)), " ",
            length, " ", o.str());
    c.check(x.get_start_node(infra) == w.node_of[want.front().state], "path-start", o.str());
    c.check(static_cast<int>(x.first_station_route(infra)->id_) == s.points.front().route &&
                static_cast<int>(x.last_station_route(infra)->id_) == s.points.back().route,
            "path-station-routes", o.str());
    c.check(static_cast<int>(x.first_interlocking_route(infra).id_) == path.front() &&
                static_cast<int>(x.last_interlocking_route(infra).id_) == path.back(),
            "path-interlocking-routes", o.str());
    std::vector<int> ids;
    for (auto const& ir : x.path(infra)) ids.push_back(static_cast<int>(ir.id_));
    c.check(ids == path, "path-range", o.str());
    // trains that enter or leave the network on their way cover their first or last route from its start or to its end
    std::vector<node::ptr> way;
    for (std::size_t q = 0; q < path.size(); ++q) {
      bool shared = q > 0;
      for (auto const rn : w.i().interlocking_.routes_[path[q]].iterate(infra)) {
        if (!shared) way.push_back(rn.node_);
        shared = false;
      }
    }
    auto const mode = c.r.in(1, 3);
    auto y = x;
    y.break_in_ = (mode & 1) != 0;
    y.break_out_ = (mode & 2) != 0;
    auto const first = std::find(way.begin(), way.end(), w.node_of[want.front().state]);
    auto const last = std::find(way.rbegin(), way.rend(), w.node_of[want.back().state]);
    if (!c.check(first != way.end() && last != way.rend(), "path-holds-halts", o.str())) continue;
    std::vector<node::ptr> const expect(y.break_in_ ? way.begin() : first, y.break_out_ ? way.end() : last.base());
    std::vector<node::ptr> nodes;
    halts = 0;
    for (auto const tn : y.iterate(infra)) {
      nodes.push_back(tn.node_);
      halts += tn.sequence_point_.has_value() ? 1U : 0U;
      if (nodes.size() > expect.size() + 10) break;
    }
    c.check(nodes == expect, "walk-breaking", o.str(), " in ", y.break_in_, " out ", y.break_out_, " has ", nodes.size(), " nodes, expected ",
            expect.size(), " of ", way.size());
    c.eq(halts, x.sequence_points_.size(), "walk-breaking-points", o.str());
    c.stat("breaking");
    if (path.size() == 1) c.stat("breaking_on_one_route");
  }
}
