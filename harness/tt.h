// Generated rolling stock and timetables for a generated network.
#pragma once

#include <array>

#include "lockw.h"

#include "soro/timetable/timetable.h"

namespace mdl {

struct piece_spec {
  int from, to;  // km/h
  double f1, f2, f3;  // kN, kN/(km/h), kN/(km/h)^2
};

struct vehicle_spec {
  int id{0};
  std::string name;
  int weight{0}, max_speed{0};  // t, km/h
  std::vector<piece_spec> pieces;
  bool broken{false};  // the pieces leave a gap or overlap
  double r1{0}, r2{0}, r3{0};
};

struct series_spec {
  std::string nr, company;
  std::vector<vehicle_spec> variants;
};

inline std::int64_t secs(soro::relative_time const t) {
  return soro::valid(t) ? static_cast<std::int64_t>(t.count()) : -1;
}

inline std::string dec(double v, char sep = ',') {
  char b[64];
  std::snprintf(b, sizeof b, "%.10g", v);
  std::string s = b;
  for (auto& x : s) {
    if (x == '.') x = sep;
  }
  return s;
}

inline std::vector<series_spec> random_stock(rng& r, unsigned weak = 0) {
  std::vector<series_spec> all;
  std::set<std::string> used;
  auto const n = 1 + r.below(5);
  for (std::uint64_t i = 0; i < n; ++i) {
    series_spec s;
    static char const* nrs[] = {"42", "101", "628", "185-2", "0", "X 7"};
    static char const* cos[] = {"8000", "1", "77"};
    do {
      s.nr = nrs[r.below(6)];
      s.company = cos[r.below(3)];
    } while (!used.insert(s.nr + "-" + s.company).second);
    std::set<int> ids;
    auto const k = 1 + r.below(3);
    while (ids.size() < k) ids.insert(static_cast<int>(r.in(0, 9)));
    for (auto const id : ids) {
      vehicle_spec v;
      v.id = id;
      v.name = "type " + std::to_string(r.below(90));
      v.weight = static_cast<int>(r.in(20, 400));
      v.max_speed = static_cast<int>(r.in(4, 30)) * 10;
      v.r1 = static_cast<double>(r.in(10, 300)) / 100;
      v.r2 = static_cast<double>(r.in(0, 3)) / 100;
      v.r3 = static_cast<double>(r.in(1, 5)) / 100;
      if (weak > 0 && r.chance(weak)) v.r1 = 40000.0 / v.weight * static_cast<double>(r.in(12, 30)) / 10;  // cannot start
      // falling tractive force, pieces that meet at their borders
      auto const m = 1 + r.below(3);
      double force = static_cast<double>(r.in(150, 400));
      int from = 0;
      for (std::uint64_t p = 0; p < m; ++p) {
        piece_spec q;
        q.from = from;
        q.to = p + 1 == m ? 400 : from + static_cast<int>(r.in(1, 8)) * 10;
        q.f2 = r.chance(20) ? 0 : -static_cast<double>(r.in(1, 40)) / 100;
        q.f3 = r.chance(60) ? 0 : static_cast<double>(r.in(1, 9)) / 10000;
        q.f1 = force - q.f2 * from - q.f3 * from * from;
        force = q.f1 + q.f2 * q.to + q.f3 * q.to * q.to;
        from = q.to;
        v.pieces.push_back(q);
      }
      if (m > 1 && r.chance(10)) {
        v.broken = true;
        v.pieces.back().from += r.chance(50) ? 5 : -5;
      }
      s.variants.push_back(v);
    }
    all.push_back(s);
  }
  return all;
}

inline std::string stock_xml(std::vector<series_spec> const& all, rng& r) {
  std::string x = "<Triebfahrzeugbaureihen>\n";
  auto const num = [&](double v) { return dec(v, r.chance(80) ? ',' : '.'); };
  for (auto const& s : all) {
    x += "<Triebfahrzeugbaureihe><Nr>" + s.nr + "</Nr><Eisenbahnunternehmen Typ=\"U\" Nr=\"" + s.company +
         "\">DB</Eisenbahnunternehmen><Triebfahrzeugbaureihenvarianten>\n";
    for (auto const& v : s.variants) {
      x += "<Triebfahrzeugbaureihenvariante><Variante>" + std::to_string(v.id) + "</Variante><Bezeichnung>" + v.name +
           "</Bezeichnung><EigenGewicht Einheit=\"t\">" + std::to_string(v.weight) +
           "</EigenGewicht><ZulaessigeGeschwindigkeit>" + std::to_string(v.max_speed) +
           "</ZulaessigeGeschwindigkeit><Laufwiderstandsfaktor1>" + num(v.r1) +
           "</Laufwiderstandsfaktor1><Laufwiderstandsfaktor2>" + num(v.r2) +
           "</Laufwiderstandsfaktor2><Laufwiderstandsfaktor3>" + num(v.r3) +
           "</Laufwiderstandsfaktor3><Stromartausruestungen><Stromartausruestung><Zugkraftfaktoren>\n";
      for (auto const& p : v.pieces) {
        x += "<Zugkraftfaktor><Faktor1>" + num(p.f1) + "</Faktor1><Faktor2>" + num(p.f2) + "</Faktor2><Faktor3>" +
             num(p.f3) + "</Faktor3><GeschwindigkeitVon>" + std::to_string(p.from) +
             "</GeschwindigkeitVon><GeschwindigkeitBis>" + std::to_string(p.to) + "</GeschwindigkeitBis></Zugkraftfaktor>\n";
      }
      x += "</Zugkraftfaktoren></Stromartausruestung></Stromartausruestungen></Triebfahrzeugbaureihenvariante>\n";
    }
    x += "</Triebfahrzeugbaureihenvarianten></Triebfahrzeugbaureihe>\n";
  }
  return x + "</Triebfahrzeugbaureihen>\n";
}

// the stock in one file or in several
inline std::vector<std::string> stock_files(std::vector<series_spec> const& all, rng& r) {
  std::vector<std::vector<series_spec>> in(r.chance(60) ? 1 : 2 + r.below(2));
  for (auto const& s : all) r.pick(in).push_back(s);
  std::vector<std::string> x;
  for (auto const& s : in) x.push_back(stock_xml(s, r));
  return x;
}

struct point_spec {
  int route{-1};  // model route, as listed in lock_view
  int type{0};  // 0: passing, else the key of the stop mode
  std::int64_t arrival{-1}, departure{-1};  // seconds after midnight
  std::string stop_time;
  std::int64_t stop_seconds{0};
};

// why a train cannot be used
enum class obstacle { NONE, PARSE, PATH };

struct train_spec {
  unsigned main{0}, sub{0};
  bool worked_on{false}, ctc{false}, break_in{false}, break_out{false}, freight{false};
  std::vector<point_spec> points;
  std::set<std::int64_t> days;  // since 1970
  std::string services;
  std::vector<std::pair<int, int>> units;  // series, variant
  double length{0}, weight{0}, max_speed{0};
  std::string unknown_station, unknown_route;  // replaces that of point 1
  bool unknown_unit{false};

  // expectations
  obstacle why{obstacle::NONE};
  std::vector<std::vector<int>> ways;  // possible sequences of interlocking routes
};

inline std::string day_text(std::int64_t d) {
  date::year_month_day const y{date::sys_days{date::days{d}}};
  char b[32];
  std::snprintf(b, sizeof b, "%04d-%02u-%02u", int{y.year()}, unsigned{y.month()}, unsigned{y.day()});
  return b;
}

struct tt_world : lock_world {
  std::vector<series_spec> stock;
  std::vector<train_spec> specs;
  std::vector<std::vector<std::size_t>> groups;  // trains: construction trains
  std::vector<std::vector<std::size_t>> files;  // groups
  std::filesystem::path tt_dir;
  unsigned weak{0};  // percentage of vehicles that cannot start
  bool wrong_version{false}, other_files{false}, long_stops{false};
  std::map<lock_route, int> ir_of;

  void tune(vh::ctx& c, options& o) override {
    o.stations = static_cast<int>(c.r.in(2, 6));
    o.ops = static_cast<int>(c.r.in(0, 3));
    o.mids = static_cast<int>(c.r.in(3, 12));
    o.max_routes = static_cast<unsigned>(c.r.in(4, 14));
    o.signal_weight = static_cast<unsigned>(c.r.in(5, 35));
    if (c.r.chance(70)) o.etcs = false;
  }

  void before_load(vh::ctx& c) override {
    stock = random_stock(c.r, weak);
    n.core_extra = stock_files(stock, c.r);
    n.save(dir, c.r);
  }

  route const& sr(int k) const { return *lv->v.r[k]; }
  int halt_of(int k, bool freight) const { return freight ? sr(k).freight : sr(k).passenger; }

  // a place to halt at, where the route does not leave it out
  int usable_halt_of(int k, bool freight) const {
    auto const h = halt_of(k, freight);
    return n.o.wide && sr(k).omitted.count(h) > 0 ? -1 : h;
  }

  static void random_services(train_spec& t, rng& r) {
    auto base = r.in(18900, 19400);
    auto const k = 1 + r.below(r.chance(30) ? 3 : 1);
    for (std::uint64_t i = 0; i < k; ++i) {
      auto const len = r.in(1, 20);
      std::string mask;
      for (std::int64_t d = 0; d < len; ++d) {
        bool const on = r.chance(50) || (i == 0 && d + 1 == len && t.days.empty());
        mask += on ? '1' : '0';
        if (on) t.days.insert(base + d);
      }
      t.services += "<service startDate=\"" + day_text(base) + "\" endDate=\"" + day_text(base + len - 1) +
                    "\" bitMask=\"" + mask + "\"/>\n";
      base += len + r.in(0, 30);
    }
    auto const first = *t.days.begin();
    auto const s = r.chance(35) ? 1 + r.below(3) : 0;
    for (std::uint64_t i = 0; i < s; ++i) {
      // now and then no day remains
      bool const include = t.days.empty() || (t.days.size() < 2 && !r.chance(30)) || r.chance(50);
      std::int64_t d = 0;
      if (include) {
        do {
          d = first + r.in(-10, 60);
        } while (t.days.count(d) > 0);
        t.days.insert(d);
      } else {
        std::vector<std::int64_t> v(t.days.begin(), t.days.end());
        d = r.pick(v);
        t.days.erase(d);
      }
      t.services += "<service><special date=\"" + day_text(d) + "\" type=\"" + (include ? "include" : "exclude") +
                    "\"/></service>\n";
    }
  }

  static std::pair<std::string, std::int64_t> random_duration(rng& r, bool long_stops = false) {
    auto const h = r.chance(10) ? (long_stops && r.chance(40) ? r.in(9, 36) : r.in(1, 3)) : 0, m = r.chance(70) ? r.in(0, 59) : 0, s = r.chance(50) ? r.in(0, 59) : 0;
    std::string x = "PT";
    if (h > 0) x += std::to_string(h) + "H";
    if (m > 0 || r.chance(20)) x += std::to_string(m) + "M";
    auto v = h * 3600 + m * 60;
    if (s > 0) {
      x += std::to_string(s);
      v += s;
      if (r.chance(20)) {
        auto const f = std::array<int, 6>{1, 25, 49, 51, 75, 99}[r.below(6)];
        x += (f < 10 ? ".0" : ".") + std::to_string(f);
        if (f > 50) ++v;
      }
      x += "S";
    } else if (v == 0 && r.chance(70)) {
      x += "0S";
    }
    return {x, v};
  }

  // a way over several station routes from a halt to a halt
  bool random_way(vh::ctx& c, train_spec& t, bool halts) const {
    auto& r = c.r;
    if (lv->v.r.empty()) return false;
    for (int attempt = 0; attempt < 30; ++attempt) {
      auto k = static_cast<int>(r.below(lv->v.r.size()));
      if (halts && usable_halt_of(k, t.freight) < 0) continue;
      std::vector<int> way = {k};
      std::vector<std::vector<int>> good;
      while (way.size() < 12 && !lv->succ[k].empty()) {
        std::vector<int> const next(lv->succ[k].begin(), lv->succ[k].end());
        k = r.pick(next);
        way.push_back(k);
        if (!halts || usable_halt_of(k, t.freight) >= 0) good.push_back(way);
      }
      if (good.empty()) continue;
      way = r.chance(50) ? good.back() : r.pick(good);
      for (auto const q : way) t.points.push_back({q, 0, -1, -1, "", 0});
      return true;
    }
    return false;
  }

  void random_times(train_spec& t, rng& r) const {
    std::int64_t now = r.in(0, r.chance(20) ? 86399 : 60000);
    auto const n_points = t.points.size();
    for (std::size_t i = 0; i < n_points; ++i) {
      auto& p = t.points[i];
      bool const ends = i == 0 || i + 1 == n_points;
      bool const halt = ends || (usable_halt_of(p.route, t.freight) >= 0 && r.chance(40));
      now += r.in(0, 3000);
      if (halt) {
        p.type = 2 + static_cast<int>(r.below(3));
        if (i != 0 || r.chance(50)) p.arrival = now;
        now += r.in(0, 600);
        if (i + 1 != n_points || r.chance(50)) p.departure = now;
      } else if (sr(p.route).checkpoint >= 0 && r.chance(60)) {
        p.departure = now;
        if (r.chance(30)) p.arrival = now;
      }
      if (halt ? r.chance(85) : r.chance(5)) {
        auto const d = random_duration(r, long_stops);
        p.stop_time = d.first;
        p.stop_seconds = d.second;
      }
    }
    while (now > 2 * 86400 - 1) {  // the format knows one day's leap
      now = 0;
      for (auto& p : t.points) {
        if (p.arrival >= 0) p.arrival /= 2;
        if (p.departure >= 0) p.departure /= 2;
        now = std::max({now, p.arrival, p.departure});
      }
    }
  }

  // the interlocking routes a train can use along its way
  void find_ways(train_spec& t) const {
    std::vector<int> chain;
    for (auto const& p : t.points) chain.push_back(p.route);
    std::vector<std::size_t> base;  // offset of every station route
    std::size_t total = 0;
    for (auto const k : chain) {
      base.push_back(total);
      total += sr(k).states.size();
    }
    auto const from = static_cast<std::size_t>(halt_of(chain.front(), t.freight));
    auto const to = base.back() + static_cast<std::size_t>(halt_of(chain.back(), t.freight));
    // routes laid along the chain: chain offset of their start and end
    struct laid {
      int ir;
      long a, z;  // [a, z), may reach beyond the chain on both sides
    };
    std::vector<laid> all;
    for (auto const& [lr, ir] : ir_of) {
      // align with any position of the chain
      for (std::size_t first = 0; first < chain.size(); ++first) {
        auto const at = std::find(lr.srs.begin(), lr.srs.end(), chain[first]);
        if (at == lr.srs.end()) continue;
        bool const head_outside = at != lr.srs.begin();
        if (first != 0 && head_outside) continue;
        bool ok = true;
        std::size_t k = first;
        auto it = at;
        for (; it != lr.srs.end() && k < chain.size(); ++it, ++k) ok = ok && *it == chain[k];
        if (!ok) continue;
        long const a = head_outside ? -1 : static_cast<long>(base[first] + lr.start);
        long const z = it != lr.srs.end() ? static_cast<long>(total) + 1
                                          : static_cast<long>(base[k - 1] + lr.end);
        all.push_back({ir, a, z});
      }
    }
    // consecutive routes share their signal
    std::vector<int> path;
    auto const extend = [&](auto&& self, laid const& l) -> void {
      if (t.ways.size() > 50) return;
      path.push_back(l.ir);
      if (l.z > static_cast<long>(to)) {
        t.ways.push_back(path);
      } else {
        for (auto const& o : all) {
          if (o.a == l.z - 1) self(self, o);
        }
      }
      path.pop_back();
    };
    for (auto const& l : all) {
      if (l.a <= static_cast<long>(from) && static_cast<long>(from) < l.z) extend(extend, l);
    }
  }

  // what walking the train yields: every node from the first to the last halt
  struct walk_stop {
    int state;
    bool omitted;
    int point;  // index into the sequence points with a place, or -1
    speed_spec const* extra;  // extra speed limit of its route
    int extra_kind;
    bool halts;
  };
  std::vector<walk_stop> walk(train_spec const& t) const {
    std::vector<walk_stop> v;
    int point = 0;
    for (std::size_t k = 0; k < t.points.size(); ++k) {
      auto const& p = t.points[k];
      auto const& rt = sr(p.route);
      int mark = -1;
      if (p.type != 0) {
        mark = halt_of(p.route, t.freight);
      } else if (p.departure >= 0) {
        mark = rt.checkpoint;
      }
      auto const from = k == 0 ? mark : 0;
      auto const to = k + 1 == t.points.size() ? mark : static_cast<int>(rt.states.size()) - 1;
      for (int q = from; q <= to; ++q) {
        bool const om = rt.omitted.count(q) > 0;
        auto const it = rt.spls.find(q);
        bool const extra = it != rt.spls.end() && !om;
        v.push_back({rt.states[q], om, q == mark ? point : -1, extra ? &it->second.front().first : nullptr,
                     extra ? it->second.front().second : 0, q == mark && p.type != 0});
        if (q == mark) ++point;
      }
    }
    return v;
  }

  void random_train(vh::ctx& c, bool only_good) {
    auto& r = c.r;
    train_spec t;
    t.main = 100 + static_cast<unsigned>(specs.size());
    t.sub = static_cast<unsigned>(r.below(r.chance(50) ? 3 : 60000));
    t.freight = r.chance(40);
    for (int attempt = 0; attempt < 12; ++attempt) {
      t.points.clear();
      t.ways.clear();
      if (!random_way(c, t, true)) return;
      find_ways(t);
      if (t.ways.size() == 1 || r.chance(5)) break;
    }
    random_times(t, r);
    random_services(t, r);
    auto const k = 1 + r.below(r.chance(30) ? 3 : 1);
    for (std::uint64_t i = 0; i < k; ++i) {
      auto const s = static_cast<int>(r.below(stock.size()));
      auto const v = static_cast<int>(r.below(stock[s].variants.size()));
      t.units.push_back({s, v});
      if (stock[s].variants[v].broken) t.why = obstacle::PARSE;
    }
    t.length = static_cast<double>(r.in(0, 7000)) / 10;
    t.weight = static_cast<double>(r.in(200, 30000)) / 10;
    if (only_good) {
      // no rockets: at most 3 m/s^2
      double force = 0;
      for (auto const& [a, b] : t.units) force += stock[a].variants[b].pieces.front().f1;
      t.weight = std::max(t.weight, std::ceil(force / 3));
    }
    t.max_speed = static_cast<double>(r.in(4, 30)) * 10;
    if (!only_good && r.chance(25)) {
      t.why = obstacle::PARSE;
      switch (r.below(10)) {
        case 0: t.worked_on = true; break;
        case 1: t.ctc = true; break;
        case 2: t.break_in = true; break;
        case 3: t.break_out = true; break;
        case 4: t.points.resize(1); break;
        case 5: t.points.front().type = 0; break;
        case 6: t.points.back().type = 0; break;
        case 7: t.unknown_station = "NOPE"; break;
        case 8: t.unknown_route = "no such route"; break;
        default: t.unknown_unit = true; break;
      }
      if (t.points.size() == 1 && t.points[0].departure < 0) t.points[0].departure = t.points[0].arrival;
    } else if (!only_good && r.chance(8)) {
      // a halt or a passing time where the route has no place for it
      for (std::size_t i = 1; i + 1 < t.points.size(); ++i) {
        auto& p = t.points[i];
        if (p.type == 0 && p.departure < 0) {
          if (halt_of(p.route, t.freight) < 0 && r.chance(50)) {
            p.type = 4;
            p.arrival = p.departure = t.points[0].departure;
            t.why = obstacle::PARSE;
            break;
          }
          if (sr(p.route).checkpoint < 0) {
            p.departure = t.points[0].departure;
            t.why = obstacle::PARSE;
            break;
          }
        }
      }
    }
    if (!only_good && t.why == obstacle::NONE && r.chance(6)) {
      // its first or last halt is where the route has no place for it
      std::vector<std::size_t> at;
      for (std::size_t i = 0; i < t.points.size(); ++i) {
        if (halt_of(t.points[i].route, t.freight) < 0) at.push_back(i);
      }
      if (!at.empty()) {
        auto const i = r.pick(at);
        auto const b = t.points.begin();
        if (i + 1 < t.points.size() && (i == 0 || r.chance(50))) {
          t.points.erase(b, b + static_cast<std::ptrdiff_t>(i));
          t.points.front().type = 3;
        } else if (i > 0) {
          t.points.resize(i + 1);
          t.points.back().type = 3;
        }
        t.why = obstacle::PARSE;
        c.stat("end_without_place");
      }
    }
    if (t.why == obstacle::NONE && t.ways.size() != 1) t.why = obstacle::PATH;
    specs.push_back(t);
  }

  static std::string time_xml(char const* tag, std::int64_t v, rng& r) {
    char b[64];
    auto const d = v % 86400;
    std::snprintf(b, sizeof b, "%02d:%02d:%02d.00", static_cast<int>(d / 3600), static_cast<int>(d / 60 % 60),
                  static_cast<int>(d % 60));
    std::string const leap = v >= 86400 ? (r.chance(50) ? "<nightLeap/>" : "<nightLeap>1</nightLeap>") : "";
    return std::string("<") + tag + "><time>" + b + "</time>" + leap + "</" + tag + ">";
  }

  std::string train_xml(train_spec const& t, rng& r) const {
    std::string x = "<constructionTrain><trainNumber><mainNumber>" + std::to_string(t.main) + "</mainNumber><subNumber>" +
                    std::to_string(t.sub) + "</subNumber></trainNumber>\n<characteristic><tractionUnits>";
    for (auto const& [s, v] : t.units) {
      x += "<tractionUnit><tractionUnitDesignSeries><designSeries Typ=\"L\" Nr=\"" + stock[s].company + "\">" +
           (t.unknown_unit ? "999" : stock[s].nr) + "</designSeries><variante>" + std::to_string(stock[s].variants[v].id) +
           "</variante></tractionUnitDesignSeries></tractionUnit>\n";
    }
    x += "</tractionUnits><maxVelocity>" + dec(t.max_speed, '.') + "</maxVelocity><relevantStopPositionMode>" +
         (t.freight ? "G" : r.chance(70) ? "R" : std::array<char const*, 5>{"", "GR", "g", "RG", "P"}[r.below(5)]) + "</relevantStopPositionMode><trainProtection>" + (t.ctc ? "true" : "false") +
         "</trainProtection><totalLength>" + dec(t.length, '.') + "</totalLength><totalWeight>" + dec(t.weight, '.') +
         "</totalWeight></characteristic>\n<services>" + t.services + "</services>\n<sequence>";
    if (t.break_in || r.chance(70)) x += std::string("<breakin>") + (t.break_in ? "true" : "false") + "</breakin>";
    if (t.break_out || r.chance(70)) x += std::string("<breakout>") + (t.break_out ? "true" : "false") + "</breakout>";
    x += "<sequenceServicePoints>\n";
    for (std::size_t i = 0; i < t.points.size(); ++i) {
      auto const& p = t.points[i];
      bool const replace = i == 1 || t.points.size() == 1;
      auto const& rt = sr(p.route);
      x += "<sequenceServicePoint><servicePoint>" +
           (replace && !t.unknown_station.empty() ? t.unknown_station : n.stations[rt.station].ds100) +
           "</servicePoint><trackSystem>" + (replace && !t.unknown_route.empty() ? t.unknown_route : rt.name) +
           "</trackSystem>";
      if (p.arrival >= 0) x += time_xml("arrival", p.arrival, r);
      if (p.departure >= 0) x += time_xml("departure", p.departure, r);
      if (p.type != 0) x += "<stopMode Typ=\"HALT-ART\" Schluessel=\"" + std::to_string(p.type) + "\">H</stopMode>";
      if (!p.stop_time.empty()) x += "<minStopTime>" + p.stop_time + "</minStopTime>";
      x += "</sequenceServicePoint>\n";
    }
    return x + "</sequenceServicePoints></sequence></constructionTrain>\n";
  }

  void write_timetable(vh::ctx& c) {
    auto& r = c.r;
    static int cnt = 0;
    tt_dir = std::filesystem::path{vh::scratch_dir} / ("tt" + std::to_string(cnt++));
    std::filesystem::create_directories(tt_dir);
    for (std::size_t f = 0; f < files.size(); ++f) {
      std::string x = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><KSS version=\"1.0\"><header>"
                      "<spurplanVersionDescription><mode>Studie</mode><name>v" +
                      std::to_string(n.version) + (wrong_version && n.version % 3 == 0 ? "a" : "") + "</name><number>" +
                      std::to_string(wrong_version && n.version % 3 != 0 ? n.version + 1 : n.version) +
                      "</number></spurplanVersionDescription></header>\n<railml><timetable version=\"1.00\">\n";
      for (auto const g : files[f]) {
        bool const worked_on = specs[groups[g].front()].worked_on;
        x += "<train trainID=\"" + std::to_string(g) + "\" trainStatus=\"" +
             (worked_on ? (r.chance(50) ? "bearb" : "") : "freig") + "\"><fineConstruction>\n";
        for (auto const s : groups[g]) x += train_xml(specs[s], r);
        x += "</fineConstruction></train>\n";
      }
      network::write(tt_dir / ("KSS-" + std::to_string(f) + "_0.xml"), x + "</timetable></railml></KSS>\n");
    }
    if (other_files) {
      auto const tag = std::to_string(r.below(1000));
      network::write(tt_dir / ("notes" + tag + ".txt"), "not a timetable\n");
      network::write(tt_dir / ("A" + tag + ".xml"), "<Other><header/></Other>\n");
      network::write(tt_dir / ("KSS" + tag + ".xml"), "<Other><header/></Other>\n");
      network::write(tt_dir / ("KSS-" + tag + ".xml.bak"), "<Other><header/></Other>\n");
      network::write(tt_dir / ("old-KSS-" + tag + ".xml"), "<Other><header/></Other>\n");
      if (r.chance(50)) std::filesystem::create_directories(tt_dir / ("KSS-" + tag + ".xml.d"));
    }
  }

  // a timetable over the loaded network
  void random_timetable(vh::ctx& c, bool only_good, int max_trains) {
    auto& r = c.r;
    auto const& irs = i().interlocking_.routes_;
    for (std::size_t k = 0; k < irs.size(); ++k) ir_of[of(irs[k])] = static_cast<int>(k);
    auto const k = 1 + r.below(static_cast<std::uint64_t>(max_trains));
    for (std::uint64_t q = 0; q < k; ++q) random_train(c, only_good);
    for (std::size_t s = 0; s < specs.size(); ++s) {
      if (!groups.empty() && !only_good && r.chance(15) && !specs[s].worked_on && !specs[groups.back().front()].worked_on) {
        groups.back().push_back(s);
      } else {
        groups.push_back({s});
      }
    }
    auto const nf = 1 + r.below(3);
    files.resize(nf);
    for (std::size_t g = 0; g < groups.size(); ++g) files[r.below(nf)].push_back(g);
    write_timetable(c);
  }

  ~tt_world() override {
    if (!tt_dir.empty()) {
      std::error_code ec;
      std::filesystem::remove_all(tt_dir, ec);
    }
  }
};

}  // namespace mdl
