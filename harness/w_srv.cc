// W01-W03: what the server replies.
#include "srv.h"

#include "soro/server/modules/search/search_module.h"
#include "soro/simulation/ordering/ordering_graph.h"

using namespace mdl;
using soro::utls::gps;
namespace inf = soro::infra;
namespace sim = soro::simulation;
using rapidjson::Value;

namespace soro::server {
void import_tiles(import_settings const& s) { imports().push_back(s); }
}  // namespace soro::server

namespace {
struct asker {
  vh::ctx& c;
  server_case& s;
  std::vector<std::string> targets;
  std::vector<std::function<void(reply&)>> then;

  void get(std::string t, std::function<void(reply&)> f) {
    targets.push_back(std::move(t));
    then.push_back(std::move(f));
  }
  // a reply with content
  void content(std::string t, std::function<void(Value const&)> f) {
    auto const text = t;
    get(std::move(t), [this, text, f = std::move(f)](reply& r) {
      if (!c.check(r.answered && r.status == 200, "reply-status", text, " replied ", r.status, " ", r.error)) return;
      if (!c.check(r.parsed && r.json.IsObject(), "reply-json", text, " replied ", r.body.substr(0, 300))) return;
      f(r.json);
    });
  }
  void refused(std::string t, int status) {
    auto const text = t;
    get(std::move(t), [this, text, status](reply& r) {
      c.stat("refused");
      c.check(r.answered && r.status == status, "reply-refused", text, " replied ", r.status, " (expected ", status, ") ", r.error, " ",
              r.body.substr(0, 200));
    });
  }
  void run() {
    // in any order
    std::vector<std::size_t> order(targets.size());
    for (std::size_t k = 0; k < order.size(); ++k) order[k] = k;
    c.r.shuffle(order);
    std::vector<std::string> t;
    for (auto const k : order) t.push_back(targets[k]);
    auto replies = s.ask(t);
    for (std::size_t k = 0; k < order.size(); ++k) then[order[k]](replies[k]);
    c.stat("requests", t.size());
    targets.clear();
    then.clear();
  }
};

std::string text(Value const& v) {
  if (v.IsString()) return {v.GetString(), v.GetStringLength()};
  if (v.IsUint64()) return std::to_string(v.GetUint64());
  if (v.IsBool()) return v.GetBool() ? "true" : "false";
  return "?";
}
bool has(Value const& v, char const* k) { return v.IsObject() && v.HasMember(k); }
std::int64_t num(Value const& v, char const* k) { return has(v, k) && v[k].IsInt64() ? v[k].GetInt64() : -1; }
std::string str(Value const& v, char const* k) { return has(v, k) && v[k].IsString() ? text(v[k]) : "<none>"; }
double real(Value const& v, char const* k) { return has(v, k) && v[k].IsNumber() ? v[k].GetDouble() : std::nan(""); }

bool at(Value const& v, gps const& g) {
  return near(real(v, "lon"), g.lon_, 1e-9) && near(real(v, "lat"), g.lat_, 1e-9);
}

struct box {
  double w{1e9}, s{1e9}, e{-1e9}, n{-1e9};
  void add(gps const& g) {
    w = std::min(w, g.lon_);
    s = std::min(s, g.lat_);
    e = std::max(e, g.lon_);
    n = std::max(n, g.lat_);
  }
  bool operator==(box const& o) const {
    return near(w, o.w, 1e-9) && near(s, o.s, 1e-9) && near(e, o.e, 1e-9) && near(n, o.n, 1e-9);
  }
  std::string show() const {
    std::ostringstream o;
    o << "[" << w << "," << s << " " << e << "," << n << "]";
    return o.str();
  }
};
box box_of(Value const& v) {
  box b;
  if (!v.IsArray() || v.Size() != 2) return b;
  b.w = real(v[0], "lon");
  b.s = real(v[0], "lat");
  b.e = real(v[1], "lon");
  b.n = real(v[1], "lat");
  return b;
}

void path_equals(vh::ctx& c, Value const& v, std::vector<gps> const& want, std::string const& what) {
  if (!c.check(has(v, "path") && v["path"].IsArray(), "reply-path", what, " has no path")) return;
  auto const& p = v["path"];
  if (!c.eq(static_cast<std::size_t>(p.Size()), want.size(), "reply-path", what)) return;
  for (unsigned k = 0; k < p.Size(); ++k) {
    if (!c.check(at(p[k], want[k]), "reply-path", what, " position ", k)) return;
  }
}

std::vector<gps> way_of(srv_world const& w, inf::interlocking_route const& r) {
  std::vector<gps> v;
  auto const& i = w.i();
  for (std::size_t k = 0; k < r.station_routes_.size(); ++k) {
    auto const& nodes = i.station_routes_[r.station_routes_[k]]->nodes();
    std::size_t const from = k == 0 ? r.start_offset_ : 0, to = k + 1 == r.station_routes_.size() ? r.end_offset_ : nodes.size();
    for (auto q = from; q < to; ++q) v.push_back(i.element_positions_[nodes[q]->element_->id()]);
  }
  return v;
}

// ids nothing has
std::string strange_id(rng& r, std::size_t count) {
  switch (r.below(6)) {
    case 0: return std::to_string(count);
    case 1: return std::to_string(count + 1 + r.below(100));
    case 2: return "4294967295";
    case 3: return "4294967296";
    case 4: return "18446744073709551616";
    default: return "99999999999999999999999999" + std::to_string(r.below(10));
  }
}
std::string some_id(rng& r, std::size_t id) { return std::string(r.chance(5) ? 1 + r.below(4) : 0, '0') + std::to_string(id); }
}  // namespace

CASES(W01) {
  server_case s;
  if (!s.prepare(c, c.thorough_ ? 3 : 2, false)) return;
  s.start();
  if (s.parts.size() > 1) c.nontrivial();
  asker a{c, s, {}, {}};
  auto& r = c.r;
  c.stat("infrastructures", s.parts.size());

  for (auto const* t : {"/infrastructures", "/infrastructures/"}) {
    a.content(t, [&](Value const& v) {
      std::multiset<std::string> want, got;
      for (auto const& w : s.parts) want.insert(w->name);
      if (!c.check(has(v, "infrastructures") && v["infrastructures"].IsArray(), "infrastructure-names", "")) return;
      for (auto const& x : v["infrastructures"].GetArray()) got.insert(text(x));
      c.check(want == got, "infrastructure-names", got.size(), " of ", want.size());
    });
  }

  for (auto const& part : s.parts) {
    auto const& w = *part;
    auto const& i = w.i();
    auto const base = "/infrastructure/" + w.name;
    c.sig(i.graph_.elements_.size() * 31 + i.station_routes_.size());
    if (i.graph_.elements_.size() > 20) c.nontrivial();

    a.content(base + (r.chance(50) ? "/bounding_box" : "/bounding_box/"), [&](Value const& v) {
      box b;
      for (auto const& p : i.element_positions_) b.add(p);
      c.check(has(v, "boundingBox") && box_of(v["boundingBox"]) == b, "bounding-box", b.show());
    });
    a.content(base + "/stations/", [&](Value const& v) {
      if (!c.check(has(v, "stations") && v["stations"].IsArray(), "station-names", "")) return;
      std::multiset<std::pair<std::int64_t, std::string>> got, want;
      for (auto const& x : v["stations"].GetArray()) got.insert({num(x, "id"), str(x, "ds100")});
      for (auto const& x : i.stations_) want.insert({x->id_, std::string{x->ds100_}});
      c.check(got == want, "station-names", got.size(), " of ", want.size());
    });
    for (auto const& st : i.stations_) {
      a.content(base + "/station/" + some_id(r, st->id_), [&, st](Value const& v) {
        c.stat("stations");
        c.check(num(v, "id") == st->id_ && str(v, "ds100") == st->ds100_, "station-identity", st->ds100_);
        std::multiset<std::tuple<std::int64_t, std::string, std::int64_t, std::int64_t>> got, want;
        std::multiset<std::int64_t> ir_got, ir_want;
        if (!c.check(has(v, "stationRoutes") && v["stationRoutes"].IsArray() && has(v, "interlockingRouteIds") &&
                         v["interlockingRouteIds"].IsArray(),
                     "station-routes", st->ds100_))
          return;
        for (auto const& x : v["stationRoutes"].GetArray()) {
          got.insert({num(x, "id"), str(x, "name"), num(x, "from_element"), num(x, "to_element")});
        }
        for (auto const& q : i.station_routes_) {
          if (q->station_ != st) continue;
          want.insert({q->id_, std::string{q->name_}, q->nodes().front()->element_->id(), q->nodes().back()->element_->id()});
        }
        c.check(got == want, "station-routes", st->ds100_, " ", got.size(), " of ", want.size());
        for (auto const& x : v["interlockingRouteIds"].GetArray()) ir_got.insert(x.IsUint() ? x.GetUint() : -1);
        for (auto const& q : i.interlocking_.routes_) {
          for (auto const sr : q.station_routes_) {
            if (i.station_routes_[sr]->station_ == st) {
              ir_want.insert(q.id_);
              break;
            }
          }
        }
        c.check(ir_got == ir_want, "station-interlocking-routes", st->ds100_, " ", ir_got.size(), " of ", ir_want.size());
      });
    }
    for (auto const& sr : i.station_routes_) {
      if (!r.chance(60)) continue;
      a.content(base + "/station_route/" + some_id(r, sr->id_), [&, sr](Value const& v) {
        c.stat("station_routes");
        c.check(num(v, "id") == sr->id_ && str(v, "name") == sr->name_ && str(v, "ds100") == sr->station_->ds100_,
                "station-route-identity", sr->name_);
        std::vector<gps> want;
        for (auto const& q : sr->nodes()) want.push_back(i.element_positions_[q->element_->id()]);
        path_equals(c, v, want, "station route");
      });
    }
    for (auto const& ir : i.interlocking_.routes_) {
      if (!r.chance(i.interlocking_.routes_.size() > 60 ? 30 : 100)) continue;
      a.content(base + "/interlocking_route/" + some_id(r, ir.id_), [&](Value const& v) {
        c.stat("interlocking_routes");
        c.check(num(v, "id") == ir.id_, "interlocking-route-identity", ir.id_);
        path_equals(c, v, way_of(w, ir), "interlocking route");
      });
    }
    std::sort(part->sets.begin(), part->sets.end());
    for (std::size_t k = 0; k < w.sets.size(); ++k) {
      a.content(base + "/exclusion_sets/" + some_id(r, k), [&, k](Value const& v) {
        c.stat("exclusion_sets");
        c.check(num(v, "id") == static_cast<std::int64_t>(k) && num(v, "size") == static_cast<std::int64_t>(w.sets[k].size()),
                "exclusion-set-identity", k);
        if (!c.check(has(v, "interlocking_routes") && v["interlocking_routes"].IsArray(), "exclusion-set", k)) return;
        std::vector<unsigned> got;
        for (auto const& x : v["interlocking_routes"].GetArray()) got.push_back(x.IsUint() ? x.GetUint() : 0);
        std::sort(got.begin(), got.end());
        c.check(got == w.sets[k], "exclusion-set", k);
      });
    }
    for (auto const& e : i.graph_.elements_) {
      if (!r.chance(i.graph_.elements_.size() > 60 ? 40 : 100)) continue;
      a.content(base + "/element/" + some_id(r, e->id()), [&, e](Value const& v) {
        c.stat("elements");
        auto const what = std::string{e->get_type_str()} + " " + std::to_string(e->id());
        c.eq(num(v, "id"), static_cast<std::int64_t>(e->id()), "element-identity", what);
        std::set<std::string> want{"id"}, got;
        auto const eq = [&](char const* k, bool ok) {
          want.insert(k);
          c.check(ok, "element-content", what, " ", k, " is ", has(v, k) ? text(v[k]) : "missing");
        };
        if (e->is_directed_track_element()) {
          auto const& t = e->as<inf::track_element>();
          eq("kilometrage", near(real(v, "kilometrage"), si::as_m(t.km_), 1e-6));
          if (!e->is(type::SLOPE)) eq("rising", has(v, "rising") && v["rising"].IsBool() && v["rising"].GetBool() == t.rising_);
          eq("line", num(v, "line") == static_cast<std::int64_t>(t.line_));
        }
        auto const& d = i.graph_.element_data_[e->id()];
        if (e->is(type::EOTD)) {
          eq("signal", has(v, "signal") && v["signal"].IsBool() && v["signal"].GetBool() == d.as<inf::eotd>().signal_);
        } else if (e->is(type::SLOPE)) {
          eq("rising", near(real(v, "rising"), d.as<inf::slope>().rising_.val_, 1e-9));
          eq("falling", near(real(v, "falling"), d.as<inf::slope>().falling_.val_, 1e-9));
        } else if (e->is(type::HALT)) {
          auto const& h = d.as<inf::halt>();
          c.stat("halts");
          eq("name", str(v, "name") == h.name_);
          eq("passenger", has(v, "passenger") && v["passenger"].IsBool() && v["passenger"].GetBool() == h.is_passenger_);
          eq("id_extern", str(v, "id_extern") == h.identifier_extern_);
          eq("id_op", str(v, "id_op") == h.identifier_operational_);
        } else if (e->is(type::SPEED_LIMIT)) {
          auto const& l = d.as<inf::speed_limit>();
          if (si::valid(l.limit_)) eq("limit", near(real(v, "limit"), si::as_km_h(l.limit_), 1e-6));
          auto const signal = l.poa_ == inf::speed_limit::poa::LAST_SIGNAL;
          eq("point_of_activation", has(v, "point_of_activation") && (v["point_of_activation"].IsBool() ? v["point_of_activation"].GetBool() == signal
                                                                          : num(v, "point_of_activation") == (signal ? 1 : 0)));
        } else if (e->is(type::MAIN_SIGNAL)) {
          eq("name", str(v, "name") == d.as<inf::main_signal>().name_);
        } else if (e->is(type::SIMPLE_SWITCH) || e->is(type::CROSS)) {
          if (cista::holds_alternative<inf::switch_data>(d)) eq("name", str(v, "name") == d.as<inf::switch_data>().name_);
        }
        for (auto const& m : v.GetObject()) got.insert(text(m.name));
        c.check(got == want, "element-fields", what, " has ", got.size(), " fields, expected ", want.size());
      });
    }
    // ids nothing has
    for (auto const& [kind, count] : std::vector<std::pair<std::string, std::size_t>>{
             {"station", i.stations_.size()}, {"station_route", i.station_routes_.size()},
             {"interlocking_route", i.interlocking_.routes_.size()}, {"exclusion_sets", w.sets.size()},
             {"element", i.graph_.elements_.size()}}) {
      for (int q = 0; q < 2; ++q) a.refused(base + "/" + kind + "/" + strange_id(r, count), 404);
      a.refused(base + "/" + kind + "/", 404);
      a.refused(base + "/" + kind + "/-1", 404);
      a.refused(base + "/" + kind + "/1x", 404);
    }
  }
  // names nothing has
  std::string other;
  do {
    other = server_case::random_name(r);
  } while (std::any_of(s.parts.begin(), s.parts.end(), [&](auto const& w) { return w->name == other; }));
  for (auto const* t : {"/bounding_box", "/stations/", "/station/0", "/station_route/0", "/interlocking_route/0",
                        "/exclusion_sets/0", "/element/0", "/search/abc", "/timetables", "/timetable/a",
                        "/timetable/a/ordering?from=0&to=9&trainIds=", "/tiles/1/2/3.mvt"}) {
    a.refused("/infrastructure/" + other + t, 404);
  }
  a.refused("/" + other, 404);
  a.run();
}

CASES(W02) {
  server_case s;
  if (!s.prepare(c, c.r.chance(6) ? 4 : 2, true)) return;
  s.start();
  asker a{c, s, {}, {}};
  auto& r = c.r;
  for (auto const& part : s.parts) {
    auto const& w = *part;
    auto const base = "/infrastructure/" + w.name;
    c.stat("timetables", w.tables.size());
    if (!w.tables.empty()) c.nontrivial();
    a.content(base + (r.chance(50) ? "/timetables" : "/timetables/"), [&](Value const& v) {
      std::multiset<std::string> got, want;
      for (auto const& t : w.tables) want.insert(t.name);
      if (!c.check(has(v, "timetables") && v["timetables"].IsArray(), "timetable-names", "")) return;
      for (auto const& x : v["timetables"].GetArray()) got.insert(text(x));
      c.check(got == want, "timetable-names", got.size(), " of ", want.size());
    });
    for (auto const& other : s.parts) {
      if (other == part) continue;
      for (auto const& t : other->tables) a.refused(base + "/timetable/" + t.name, 404);
    }
    a.refused(base + "/timetable/" + std::string(12, 'z'), 404);
    a.refused(base + "/timetable/" + std::string(12, 'z') + "/ordering?from=0&to=9&trainIds=", 404);
    for (auto const& tab : w.tables) {
      auto const& tt = *tab.tt;
      auto const own = base + "/timetable/" + tab.name;
      std::int64_t first = std::numeric_limits<std::int64_t>::max(), last = 0;
      bool no_trains = true;
      for (auto const& x : tt->trains_) {
        if (x.trip_count() == 0) continue;
        no_trains = false;
        first = std::min<std::int64_t>(first, x.first_absolute_departure().time_since_epoch().count());
        last = std::max<std::int64_t>(last, x.last_absolute_arrival().time_since_epoch().count());
      }
      c.stat("trains", tt->trains_.size());
      if (no_trains) first = last = 1600000000;
      a.content(own + (r.chance(50) ? "" : "/"), [&, first, last, no_trains](Value const& v) {
        if (!c.check(has(v, "timetable"), "timetable-content", "")) return;
        auto const& t = v["timetable"];
        c.eq(str(t, "source"), tab.name, "timetable-source", "");
        if (!c.check(has(t, "interval"), "timetable-content", "")) return;
        c.check(num(t["interval"], "start") == static_cast<std::int64_t>(tt->interval_.start_.time_since_epoch().count()) &&
                    num(t["interval"], "end") == static_cast<std::int64_t>(tt->interval_.end_.time_since_epoch().count()),
                "timetable-interval", num(t["interval"], "start"), "-", num(t["interval"], "end"));
        c.check(no_trains || num(t["interval"], "start") == first && num(t["interval"], "end") == last, "timetable-interval",
                num(t["interval"], "start"), "-", num(t["interval"], "end"), " the trains run ", first, "-", last);
      });
      for (int q = 0; q < 3; ++q) {
        auto const lo = r.chance(30) ? 0 : r.in(std::max<std::int64_t>(0, first - 86400), last);
        auto const hi = r.chance(30) ? 4294967294LL : r.in(lo, last + 86400);
        sim::ordering_graph::filter f;
        f.interval_.start_ = soro::absolute_time{soro::absolute_time::duration{static_cast<std::uint32_t>(lo)}};
        f.interval_.end_ = soro::absolute_time{soro::absolute_time::duration{static_cast<std::uint32_t>(hi)}};
        std::string ids;
        if (r.chance(50)) {
          for (auto const& x : tt->trains_) {
            if (r.chance(60)) {
              f.trains_.push_back(x.id_);
              ids += (ids.empty() ? "" : ",") + std::to_string(x.id_);
            }
          }
          if (r.chance(10)) {
            f.trains_.push_back(static_cast<soro::tt::train::id>(tt->trains_.size() + 3));
            ids += (ids.empty() ? "" : ",") + std::to_string(tt->trains_.size() + 3);
          }
        }
        auto const target = own + "/ordering?from=" + std::to_string(lo) + "&to=" + std::to_string(hi) + "&trainIds=" + ids;
        a.content(target, [&, f, target](Value const& v) {
          sim::ordering_graph const og(*w.infra, tt, f);
          c.stat("graphs");
          std::map<std::int64_t, Value const*> nodes;
          std::multiset<std::pair<std::int64_t, std::int64_t>> got, want;
          if (!c.check(has(v, "nodes") && v["nodes"].IsArray() && has(v, "edges") && v["edges"].IsArray() && has(v, "attributes"),
                       "graph-content", target))
            return;
          for (auto const& x : v["nodes"].GetArray()) nodes[num(x, "key")] = &x;
          c.check(v["nodes"].Size() == og.nodes_.size() && nodes.size() == og.nodes_.size(), "graph-nodes", nodes.size(), " of ",
                  og.nodes_.size());
          for (auto const& x : v["edges"].GetArray()) got.insert({num(x, "source"), num(x, "target")});
          for (auto const& x : og.nodes_) {
            for (auto const y : x.out_) want.insert({x.id_, y});
          }
          c.check(got == want, "graph-edges", got.size(), " of ", want.size());
          std::size_t longest = 0;
          std::map<std::int64_t, std::int64_t> departure;  // position in order of departure
          for (auto const& [trip, range] : og.trip_to_nodes_) {
            longest = std::max<std::size_t>(longest, range.second - range.first);
            std::set<std::int64_t> rel;
            for (auto k = range.first; k < range.second; ++k) {
              auto const it = nodes.find(k);
              if (!c.check(it != nodes.end() && has(*it->second, "attributes"), "graph-node", k)) return;
              auto const& at = (*it->second)["attributes"];
              c.check(num(at, "train") == trip.train_id_ && num(at, "offset") == k - range.first && num(at, "route") == og.nodes_[k].ir_id_,
                      "graph-node", k);
              rel.insert(num(at, "relativeTrainId"));
            }
            c.check(rel.size() == 1, "graph-relative-id", "trip with several");
            auto const dep = soro::relative_to_absolute(trip.anchor_, tt->trains_[trip.train_id_].first_departure());
            c.check(departure.emplace(*rel.begin(), dep.time_since_epoch().count()).second, "graph-relative-id", "two trips with ",
                    *rel.begin());
          }
          std::int64_t rank = 0, before = -1;
          for (auto const& [rel, dep] : departure) {
            c.check(rel == rank++ && dep >= before, "graph-relative-id", rel, " departs ", dep, " after ", before);
            before = dep;
          }
          c.check(num(v["attributes"], "totalTrains") == static_cast<std::int64_t>(og.trip_to_nodes_.size()) &&
                      num(v["attributes"], "maxTrainLength") == static_cast<std::int64_t>(longest),
                  "graph-attributes", "");
          c.stat("graph_nodes", nodes.size());
          c.stat("graph_edges", want.size());
          c.sig(nodes.size() * 1009 + want.size());
        });
      }
      a.refused(own + "/ordering?from=" + std::to_string(5 + r.below(9)) + "&to=" + std::to_string(r.below(5)) + "&trainIds=", 400);
      a.refused(own + "/ordering?from=99999999999999999999&to=5&trainIds=", 400);
      a.refused(own + "/ordering?from=0&to=4294967296&trainIds=", 400);
      a.refused(own + "/ordering?from=0&to=9&trainIds=4294967296", 400);
      a.refused(own + "/ordering?from=0&to=9&trainIds=,1", 400);
      a.refused(own + "/ordering?from=0&to=9&trainIds=1,", 404);
    }
  }
  a.run();
}

CASES(W03) {
  server_case s;
  if (!s.prepare(c, 2, false)) return;
  s.start();
  auto& r = c.r;
  auto const infra_m = srv::get_infrastructure_module(s.settings);
  auto const mod = srv::get_search_module(infra_m);
  if (s.parts.size() > 1) c.nontrivial();
  c.eq(mod.contexts_.size(), s.parts.size(), "search-contexts", "");
  asker a{c, s, {}, {}};
  using entry = std::tuple<std::string, std::string, std::size_t, std::string>;  // type, name, id, element type
  for (auto const& part : s.parts) {
    auto const& w = *part;
    auto const& i = w.i();
    c.sig(i.graph_.elements_.size());
    if (i.graph_.elements_.size() > 20) c.nontrivial();
    std::map<entry, box> want;
    auto const add = [&](char const* ty, std::string const& name, std::size_t id, box const& b, std::string const& et = "") {
      want[{ty, name, id, et}] = b;
    };
    auto const pad = [](std::size_t id) { return std::string(id < 10 ? "00" : id < 100 ? "0" : "") + std::to_string(id); };
    for (auto const& st : i.stations_) {
      box b;
      for (auto const& e : st->elements_) b.add(i.element_positions_[e->id()]);
      add("station", std::string{st->ds100_}, st->id_, b);
      add("station", std::string{i.full_station_names_[st->id_]}, st->id_, b);
    }
    for (auto const& e : i.graph_.elements_) {
      box b;
      b.add(i.element_positions_[e->id()]);
      auto const& d = i.graph_.element_data_[e->id()];
      auto const et = std::string{e->get_type_str().data()};
      add("element", pad(e->id()), e->id(), b, et);
      if (e->is(type::MAIN_SIGNAL)) add("element", std::string{d.as<inf::main_signal>().name_}, e->id(), b, et);
      if (e->is(type::SIMPLE_SWITCH)) add("element", std::string{d.as<inf::switch_data>().name_}, e->id(), b, et);
      if (e->is(type::HALT)) {
        auto const& h = d.as<inf::halt>();
        for (auto const& x : {h.name_, h.identifier_extern_, h.identifier_operational_}) {
          if (!x.empty()) add("element", std::string{x}, e->id(), b, et);
        }
      }
    }
    for (auto const& q : i.station_routes_) {
      box b;
      for (auto const& x : q->nodes()) b.add(i.element_positions_[x->element_->id()]);
      add("stationRoute", std::string{q->name_}, q->id_, b);
    }
    for (auto const& q : i.interlocking_.routes_) {
      box b;
      for (auto const& g : way_of(w, q)) b.add(g);
      add("interlockingRoute", pad(q.id_), q.id_, b);
    }
    auto const it = mod.contexts_.find(w.name);
    if (!c.check(it != mod.contexts_.end(), "search-contexts", w.name)) return;
    std::map<entry, box> got;
    for (auto const& x : it->second.results_) {
      box b{x.bounding_box_.south_west_.lon_, x.bounding_box_.south_west_.lat_, x.bounding_box_.north_east_.lon_,
            x.bounding_box_.north_east_.lat_};
      auto const e = entry{std::string{srv::search_module::result::type_to_string(x.type_)}, x.name_, x.id_, x.element_type_};
      auto const q = want.find(e);
      if (!c.check(q != want.end(), "search-entry", "index has ", std::get<0>(e), " '", std::get<1>(e), "' ", std::get<2>(e), " '", std::get<3>(e), "'")) {
        return;
      }
      if (!c.check(q->second == b, "search-box", std::get<0>(e), " ", std::get<1>(e), " ", b.show(), " expected ", q->second.show())) return;
      got[e] = b;
    }
    for (auto const& [e, b] : want) {
      if (!c.check(got.count(e) > 0, "search-missing", "index lacks ", std::get<0>(e), " '", std::get<1>(e), "' ", std::get<2>(e), " ", std::get<3>(e))) {
        return;
      }
    }
    c.stat("entries", got.size());
    // and by name
    std::vector<entry> names;
    for (auto const& [e, b] : want) {
      auto const& x = std::get<1>(e);
      if (x.size() >= 3 && x.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-") == x.npos) names.push_back(e);
    }
    auto const shared = std::make_shared<std::map<entry, box>>(want);
    for (int k = 0; k < 12 && !names.empty(); ++k) {
      auto const e = r.pick(names);
      a.get("/infrastructure/" + w.name + "/search/" + std::get<1>(e), [&c, shared, e](reply& rep) {
        if (!c.check(rep.answered && rep.status == 200 && rep.parsed && rep.json.IsArray(), "search-reply", std::get<1>(e), " replied ", rep.status, " ",
                     rep.body.substr(0, 200)))
          return;
        std::size_t same = 0;
        for (auto const& [q, b] : *shared) same += std::get<1>(q) == std::get<1>(e);
        bool found = false;
        for (auto const& x : rep.json.GetArray()) {
          entry const y{str(x, "type"), str(x, "name"), static_cast<std::size_t>(num(x, "id")), str(x, "elementType")};
          auto const z = shared->find(y);
          if (!c.check(z != shared->end() && has(x, "boundingBox") && box_of(x["boundingBox"]) == z->second, "search-reply", "result ",
                       std::get<1>(y)))
            return;
          found = found || y == e;
        }
        c.check(found || same > 8, "search-reply", std::get<1>(e), " not found");
        c.stat("searches");
      });
    }
    a.get("/infrastructure/" + w.name + "/search/" + std::string(25, 'q'), [&c](reply& rep) {
      c.check(rep.answered && rep.status == 200 && rep.parsed && rep.json.IsArray() && rep.json.Size() == 0, "search-nothing", rep.status, rep.body);
    });
    a.refused("/infrastructure/" + w.name + "/search/" + server_case::random_name(r).substr(0, 1), 400);
    a.refused("/infrastructure/" + w.name + "/search/ab", 400);
  }
  a.run();
}

namespace {
struct osm_node {
  std::string lon, lat;
  std::map<std::string, std::string> tags;
  gps at() const { return {.lon_ = std::strtod(lon.c_str(), nullptr), .lat_ = std::strtod(lat.c_str(), nullptr)}; }
};

// one exported file against the network it was made from
void check_osm(vh::ctx& c, std::filesystem::path const& file, inf::infrastructure_t const& i) {
  pugi::xml_document doc;
  if (!c.check(static_cast<bool>(doc.load_file(file.c_str())), "osm-file", file.string(), " cannot be read")) return;
  auto const osm = doc.child("osm");
  c.check(std::string{osm.attribute("version").value()} == "0.6", "osm-version", osm.attribute("version").value());
  std::map<std::uint64_t, osm_node> nodes;
  std::set<std::uint64_t> way_ids;
  std::multimap<std::uint64_t, std::uint64_t> links;
  std::vector<std::pair<std::uint64_t, std::uint64_t>> ways;
  bool way_seen = false;
  for (auto const& x : osm.children()) {
    auto const kind = std::string{x.name()};
    auto const id = x.attribute("id").as_ullong(~0ULL);
    std::map<std::string, std::string> tags;
    for (auto const& t : x.children("tag")) {
      c.check(tags.emplace(t.attribute("k").value(), t.attribute("v").value()).second, "osm-tag-twice", kind, " ", id);
    }
    if (kind == "node") {
      c.check(!way_seen, "osm-order", "node ", id, " after the ways");
      osm_node n{x.attribute("lon").value(), x.attribute("lat").value(), tags};
      auto const g = n.at();
      if (!c.check(std::isfinite(g.lon_) && std::isfinite(g.lat_), "osm-position", "node ", id, " (", tags["type"], ") at ", n.lon, ",", n.lat)) return;
      if (!c.check(nodes.emplace(id, std::move(n)).second, "osm-id-twice", "node ", id)) return;
    } else if (kind == "way") {
      way_seen = true;
      c.check(way_ids.insert(id).second, "osm-id-twice", "way ", id);
      c.check(tags == std::map<std::string, std::string>{{"railway", "rail"}}, "osm-way-tags", id);
      std::vector<std::uint64_t> refs;
      for (auto const& y : x.children("nd")) refs.push_back(y.attribute("ref").as_ullong(~0ULL));
      if (!c.check(refs.size() == 2, "osm-way", id, " has ", refs.size(), " nodes")) return;
      ways.emplace_back(refs[0], refs[1]);
    } else {
      c.fail("osm-child", kind);
    }
  }
  // all stations and elements, the rest are interpolations
  std::set<std::uint64_t> taken;
  std::map<std::string, std::uint64_t> station_nodes;
  for (auto const& [id, n] : nodes) {
    if (n.tags.count("type") && n.tags.at("type") == "station") {
      if (!c.check(n.tags.count("id") && station_nodes.emplace(n.tags.at("id"), id).second, "osm-station", "node ", id)) return;
    }
  }
  c.eq(station_nodes.size(), i.stations_.size(), "osm-stations", "");
  for (auto const& st : i.stations_) {
    auto const it = station_nodes.find(std::to_string(st->id_));
    if (!c.check(it != station_nodes.end(), "osm-station", st->ds100_, " is missing")) return;
    auto const& n = nodes.at(it->second);
    taken.insert(it->second);
    auto const& p = i.station_positions_[st->id_];
    c.check(near(n.at().lon_, p.lon_, 1e-9) && near(n.at().lat_, p.lat_, 1e-9), "osm-station", st->ds100_, " at ", n.lon, ",", n.lat);
    c.check(n.tags == std::map<std::string, std::string>{{"type", "station"}, {"id", std::to_string(st->id_)}, {"name", std::string{st->ds100_}}},
            "osm-station", st->ds100_, " tags");
  }
  for (auto const& e : i.graph_.elements_) {
    auto const it = nodes.find(e->id());
    if (!c.check(it != nodes.end(), "osm-element", e->id(), " is missing")) return;
    taken.insert(e->id());
    auto const& p = i.element_positions_[e->id()];
    auto const& n = it->second;
    c.check(near(n.at().lon_, p.lon_, 1e-9) && near(n.at().lat_, p.lat_, 1e-9), "osm-element", e->id(), " at ", n.lon, ",", n.lat);
    std::map<std::string, std::string> const want{{"type", "element"}, {"subtype", std::string{e->get_type_str()}},
                                                  {"id", std::to_string(e->id())}, {"direction", e->rising() ? "rising" : "falling"}};
    c.check(n.tags == want, "osm-element", e->id(), " tags");
  }
  c.stat("osm_nodes", nodes.size());
  for (auto const& [id, n] : nodes) {
    if (taken.count(id)) continue;
    c.check(n.tags == std::map<std::string, std::string>{{"type", "interpolation"}}, "osm-node", id, " is nothing");
  }
  // neighbours within a station share a way, those of two stations a chain
  std::set<std::pair<std::uint64_t, std::uint64_t>> direct, across, seen;
  for (auto const& e : i.graph_.elements_) {
    for (auto const& x : e->neighbours()) {
      if (x == nullptr) continue;
      std::pair<std::uint64_t, std::uint64_t> const p{std::min<std::uint64_t>(e->id(), x->id()), std::max<std::uint64_t>(e->id(), x->id())};
      (i.element_to_station_.at(e->id()) == i.element_to_station_.at(x->id()) ? direct : across).insert(p);
    }
  }
  for (auto const& [a, b] : ways) {
    if (!c.check(nodes.count(a) && nodes.count(b) && a != b, "osm-way-ref", a, " - ", b)) return;
    if (taken.count(a) && taken.count(b)) {
      std::pair<std::uint64_t, std::uint64_t> const p{std::min(a, b), std::max(a, b)};
      c.check(direct.count(p) > 0, "osm-way", a, " - ", b, " are not neighbours within a station");
      c.check(seen.insert(p).second, "osm-way", a, " - ", b, " twice");
    } else {
      links.emplace(a, b);
      links.emplace(b, a);
    }
  }
  c.eq(seen.size(), direct.size(), "osm-ways", "ways within stations");
  std::size_t used = 0, chains = 0;
  std::set<std::pair<std::uint64_t, std::uint64_t>> joined;
  for (auto const& [from, to] : links) {
    if (!taken.count(from)) {
      c.check(links.count(from) == 2, "osm-chain", "node ", from, " has ", links.count(from), " ways");
      continue;
    }
    std::vector<std::uint64_t> way{from};
    auto at = to;
    while (!taken.count(at)) {
      if (way.size() > nodes.size()) return c.fail("osm-chain", "circle");
      auto const [lo, hi] = links.equal_range(at);
      auto next = at;
      for (auto q = lo; q != hi; ++q) {
        if (q->second != way.back()) next = q->second;
      }
      if (!c.check(next != at, "osm-chain", "ends at ", at)) return;
      way.push_back(at);
      at = next;
    }
    way.push_back(at);
    std::pair<std::uint64_t, std::uint64_t> const p{std::min(from, at), std::max(from, at)};
    if (!c.check(across.count(p) > 0, "osm-chain", from, " to ", at, " are no borders of each other")) return;
    // found once from either end
    if (from == p.first) c.check(joined.insert(p).second, "osm-chain", from, " to ", at, " twice");
    if (from != p.first) continue;
    used += way.size() - 2;
    ++chains;
    auto const whole = nodes.at(from).at().distance(nodes.at(at).at());
    for (std::size_t k = 0; k + 1 < way.size(); ++k) {
      auto const step = nodes.at(way[k]).at().distance(nodes.at(way[k + 1]).at());
      c.check(step <= 0.25 * whole + 0.5, "osm-chain", from, " to ", at, ": ", step, " m of ", whole, " at once");
      if (taken.count(way[k])) continue;
      auto const g = nodes.at(way[k]).at();
      c.check(std::min(g.distance(nodes.at(from).at()), g.distance(nodes.at(at).at())) <= 1.2 * whole + 0.5, "osm-chain",
              from, " to ", at, ": strays");
    }
  }
  c.eq(joined.size(), across.size(), "osm-chains", "connections between stations");
  c.eq(used, nodes.size() - taken.size(), "osm-chains", "interpolation nodes");
  c.stat("osm_ways", ways.size());
  c.stat("osm_chains", chains);
  for (auto const& [a, b] : across) c.stat("osm_same_place", i.element_positions_[a].distance(i.element_positions_[b]) < 0.01);
}
}  // namespace

CASES(W04) {
  server_case s;
  if (!s.prepare(c, 2, false)) return;
  auto& r = c.r;
  // what is left from an earlier start
  std::set<std::string> kept, db;
  for (auto const& w : s.parts) {
    if (r.chance(30)) {
      kept.insert(w->name);
      network::write(s.settings.osm_dir() / (w->name + ".osm"), "old\n");
    }
    if (r.chance(50)) {
      db.insert(w->name);
      auto const f = s.settings.tiles_dir() / (w->name + ".mdb");
      network::write(f, "old\n");
      auto const now = std::filesystem::file_time_type::clock::now();
      std::filesystem::last_write_time(f, r.chance(50) ? now + std::chrono::hours{1} : now - std::chrono::hours{1});
    }
  }
  srv::imports().clear();
  s.start();
  std::map<std::string, std::size_t> imported;
  for (auto const& x : srv::imports()) {
    auto const name = x.db_path_.stem().string();
    ++imported[name];
    c.check(x.osm_path_ == s.settings.osm_dir() / (name + ".osm") && x.db_path_ == s.settings.tiles_dir() / (name + ".mdb") &&
                x.osm_profile_ == s.settings.profile_file() && x.tmp_dir_ == s.settings.tmp_dir(),
            "tiles-import", name, " with other files");
  }
  for (auto const& w : s.parts) {
    auto const file = s.settings.osm_dir() / (w->name + ".osm");
    auto const& i = w->i();
    c.sig(i.graph_.elements_.size());
    if (!c.check(std::filesystem::exists(file), "osm-file", "missing")) continue;
    auto const mdb = s.settings.tiles_dir() / (w->name + ".mdb");
    bool const regen = s.settings.regenerate_.val();
    bool const old = !db.count(w->name) || std::filesystem::last_write_time(file) > std::filesystem::last_write_time(mdb);
    c.eq(imported[w->name], static_cast<std::size_t>(regen || old), "tiles-import", w->name);
    imported.erase(w->name);
    if (kept.count(w->name) && !regen) {
      c.stat("osm_kept");
      std::ifstream f(file);
      std::string first;
      std::getline(f, first);
      c.check(first == "old", "osm-kept", "an export was replaced without being asked to");
      continue;
    }
    c.nontrivial();
    c.stat("osm_files");
    check_osm(c, file, i);
  }
  for (auto const& [name, k] : imported) c.check(k == 0, "tiles-import", name, " is no infrastructure");
}
