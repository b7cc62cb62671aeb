// I11: where stations and elements lie on the map.
#include "world.h"

#include <fstream>

#include "soro/utls/coordinates/polar.h"

using namespace mdl;
using soro::utls::gps;

namespace {
struct lay_world : world {
  struct given {
    bool present{false};
    double lat{0}, lon{0};
  };
  std::vector<given> known;  // per model station
  enum { FILE_GIVEN, FILE_MISSING, NO_FILE } source{FILE_GIVEN};

  static std::string num(double v, bool comma) {
    char b[40];
    std::snprintf(b, sizeof(b), "%.7f", v);
    std::string s = b;
    if (comma) {
      s = "\"" + s + "\"";
      std::replace(s.begin(), s.end(), '.', ',');
    }
    return s;
  }

  void make(vh::ctx& c) {
    auto o = random_options(c);
    o.layout = true;
    o.routes = false;
    if (c.r.chance(50)) o.stations = static_cast<int>(c.r.in(3, c.thorough_ ? 14 : 9));
    n.build(c.r, o);
    // the nodes of an element lie at one place; stations have different extents
    std::vector<int> size, at;
    for (std::size_t s = 0; s < n.stations.size(); ++s) {
      size.push_back(static_cast<int>(c.r.in(1, c.r.chance(50) ? 20000 : 900)));
      at.push_back(static_cast<int>(c.r.below(30000)));
    }
    for (auto& e : n.elems) {
      auto const x = at[e.station] + static_cast<int>(c.r.below(static_cast<std::uint64_t>(size[e.station])));
      auto const y = at[e.station] / 2 + static_cast<int>(c.r.below(static_cast<std::uint64_t>(size[e.station])));
      for (auto& p : e.ports) p.x = x, p.y = y;
    }
    dir = fresh_dir();
    n.save(dir, c.r);

    known.resize(n.stations.size());
    auto const pct = c.r.chance(15) ? 0 : c.r.chance(20) ? 100 : static_cast<unsigned>(c.r.in(10, 90));
    for (auto& k : known) {
      k.present = c.r.chance(pct);
      k.lat = static_cast<double>(c.r.in(47000000, 54500000)) / 1e6;
      k.lon = static_cast<double>(c.r.in(6000000, 14900000)) / 1e6;
    }
    opts.interlocking_ = false;
    opts.exclusions_ = false;
    opts.layout_ = true;
    source = c.r.chance(85) ? FILE_GIVEN : c.r.chance(50) ? FILE_MISSING : NO_FILE;
    if (source != FILE_GIVEN) {
      for (auto& k : known) k.present = false;
      opts.gps_coord_path_ = source == NO_FILE ? std::filesystem::path{} : dir / "nowhere.csv";
      return;
    }
    std::vector<std::string> cols{"ds100", "lat", "lon"};
    if (c.r.chance(50)) cols.push_back("name");
    c.r.shuffle(cols);
    auto const comma = c.r.chance(30);
    std::vector<std::string> rows;
    auto row = [&](std::string const& ds100, std::string const& lat, std::string const& lon) {
      std::string s;
      for (auto const& k : cols) {
        if (!s.empty()) s += ',';
        s += k == "ds100" ? ds100 : k == "lat" ? lat : k == "lon" ? lon : "some name";
      }
      rows.push_back(s);
    };
    for (std::size_t s = 0; s < known.size(); ++s) {
      auto const& k = known[s];
      auto const lat = num(k.lat, comma), lon = num(k.lon, comma);
      if (k.present) {
        row(n.stations[s].ds100, lat, lon);
      } else if (c.r.chance(30)) {
        // nothing usable about this one
        auto const how = c.r.below(3);
        row(n.stations[s].ds100, how == 0 ? lat : "", how == 1 ? lon : "");
      }
    }
    while (c.r.chance(30)) row("Q" + std::to_string(c.r.below(9)), num(1.5, comma), num(2.5, comma));
    c.r.shuffle(rows);
    std::string head;
    for (auto const& k : cols) head += (head.empty() ? "" : ",") + k;
    std::ofstream f(dir / "coords.csv");
    f << head << "\n";
    for (std::size_t i = 0; i < rows.size(); ++i) f << rows[i] << (i + 1 != rows.size() || c.r.chance(70) ? "\n" : "");
    f.close();
    opts.gps_coord_path_ = dir / "coords.csv";
  }

  // stations with a border towards s
  std::vector<int> partners(int s) const {
    std::vector<int> v;
    for (auto const& e : n.elems) {
      if (e.k == BORDER && e.station == s && e.partner >= 0) v.push_back(n.elems[e.partner].station);
    }
    return v;
  }
};

double degrees_apart(double a, double b) {
  auto const d = std::fabs(std::fmod(a - b, 360.0));
  return std::min(d, 360.0 - d);
}
}  // namespace

CASES(I11) {
  lay_world w;
  w.make(c);
  w.load();
  auto const& n = w.n;
  auto const& i = w.i();
  if (!w.map_sections(c) || !w.map_elements(c)) return;
  c.stat("stations", n.stations.size());
  c.stat("elements", i.graph_.elements_.size());
  c.stat("without_coordinate_file", w.source != lay_world::FILE_GIVEN);
  if (n.stations.size() > 2) c.nontrivial();
  for (auto const& e : n.elems) c.sig(static_cast<std::uint64_t>(e.ports[0].x) * 3001 + static_cast<std::uint64_t>(e.ports[0].y));
  if (c.case_ < 400) {
    std::ostringstream o;
    o << n.stations.size() << " stations, "
      << std::count_if(w.known.begin(), w.known.end(), [](auto const& k) { return k.present; }) << " with coordinates, "
      << i.graph_.elements_.size() << " elements";
    c.note(o.str());
  }

  if (!c.eq(i.station_positions_.size(), i.stations_.size(), "position-per-station", "station positions")) return;
  if (!c.eq(i.element_positions_.size(), i.graph_.elements_.size(), "position-per-element", "element positions")) return;

  // --- stations ---
  auto const ns = static_cast<int>(n.stations.size());
  std::vector<gps> pos(n.stations.size());
  for (int s = 0; s < ns; ++s) {
    auto const& got = i.station_positions_[w.parsed_station[s]];
    pos[s] = got;
    auto const& name = n.stations[s].ds100;
    if (w.known[s].present) {
      c.stat("positions_given");
      c.check(near(got.lat_, w.known[s].lat, 2e-7) && near(got.lon_, w.known[s].lon, 2e-7), "station-given", "station ", name,
              " lies at ", got.lat_, ",", got.lon_, ", the file says ", w.known[s].lat, ",", w.known[s].lon);
      continue;
    }
    // the nearest stations with coordinates in every direction
    std::map<int, int> depth{{s, 0}};
    std::vector<int> queue{s};
    std::vector<int> around;
    for (std::size_t q = 0; q < queue.size(); ++q) {
      auto const at = queue[q];
      if (w.known[at].present) {
        around.push_back(at);
        continue;
      }
      for (auto const p : w.partners(at)) {
        if (depth.insert({p, depth[at] + 1}).second) queue.push_back(p);
      }
    }
    double lat = 47.0, lon = 8.0;
    if (around.size() == 1) {
      lat = w.known[around[0]].lat;
      lon = w.known[around[0]].lon - 0.1 * depth[around[0]];
      c.stat("positions_beside_one");
    } else if (around.size() > 1) {
      int far = 0;
      for (auto const a : around) far = std::max(far, depth[a]);
      auto const shared = w.partners(s);
      lat = lon = 0;
      double total = 0;
      for (auto const a : around) {
        double k = far + 1 - depth[a];
        if (depth[a] == 1 && std::count(shared.begin(), shared.end(), a) > 4) k *= 2;
        lat += k * w.known[a].lat;
        lon += k * w.known[a].lon;
        total += k;
      }
      lat /= total;
      lon /= total;
      c.stat("positions_between");
      c.stat("positions_between_many", around.size() > 2);
    } else {
      c.stat("positions_default");
    }
    c.check(near(got.lat_, lat, 1e-6) && near(got.lon_, lon, 1e-6), "station-estimated", "station ", name, " lies at ",
            got.lat_, ",", got.lon_, ", estimated from ", around.size(), " stations at ", lat, ",", lon);
  }

  // --- elements: every station is a turned copy of its plan ---
  struct xy {
    double x, y;
  };
  std::map<element::ptr, int> station_of;
  std::map<element::ptr, xy> plan;
  for (std::size_t e = 0; e < n.elems.size(); ++e) {
    station_of[w.elem[e]] = n.elems[e].station;
    plan[w.elem[e]] = {n.elems[e].ports[0].x / 10.0, n.elems[e].ports[0].y / 10.0};
  }
  std::vector<xy> centre(n.stations.size());
  for (int s = 0; s < ns; ++s) {
    double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
    for (auto const& [e, st] : station_of) {
      if (st != s) continue;
      x0 = std::min(x0, plan[e].x), x1 = std::max(x1, plan[e].x);
      y0 = std::min(y0, plan[e].y), y1 = std::max(y1, plan[e].y);
    }
    centre[s] = {(x0 + x1) / 2, (y0 + y1) / 2};
  }
  std::vector<double> turn(n.stations.size(), -1);
  auto const bearing_in_plan = [](double x, double y) {
    // x grows to the right, y grows downwards
    return std::atan2(y, x) * 180.0 / 3.14159265358979 + 180.0;
  };
  for (auto const& [e, s] : station_of) {
    auto const& g = i.element_positions_[e->id()];
    double const x = plan[e].x - centre[s].x, y = plan[e].y - centre[s].y;
    double const want = 10.0 * std::hypot(x, y);
    double const got = pos[s].distance(g);
    if (!c.check(std::fabs(got - want) <= 0.005 * want + 0.1, "element-distance", "an element of station ", n.stations[s].ds100,
                 " lies ", got, " m from the station, expected ", want))
      return;
    c.stat("element_positions");
    if (want < 50) continue;
    double t = std::fmod(pos[s].bearing(g) - bearing_in_plan(x, y) + 720.0, 360.0);
    double const five = std::round(t / 5.0) * 5.0;
    if (!c.check(degrees_apart(t, five) < 0.6, "element-bearing", "an element of station ", n.stations[s].ds100, " is turned by ",
                 t, " degrees, not by a multiple of five"))
      return;
    double const k = five == 360.0 ? 0.0 : five;
    if (turn[s] < 0) turn[s] = k;
    if (!c.check(turn[s] == k, "element-bearing", "elements of station ", n.stations[s].ds100, " are turned by ", turn[s],
                 " and by ", k, " degrees"))
      return;
  }

  // --- track elements: in order of travel on the line between the ends ---
  for (std::size_t k = 0; k < n.sections.size(); ++k) {
    auto const& sec = i.graph_.sections_[w.section_id[k]];
    auto const s = n.sections[k].station;
    auto const from = plan[w.elem[n.sections[k].e[0]]], to = plan[w.elem[n.sections[k].e[1]]];
    double const len = std::hypot(to.x - from.x, to.y - from.y);
    if (turn[s] < 0) continue;
    double last = -1;
    double gap = -1;
    int idx = 0;
    for (auto const& e : sec.rising_order_) {
      if (!e->is_track_element()) continue;
      auto const& g = i.element_positions_[e->id()];
      double const d = pos[s].distance(g) / 10.0;
      double const b = (pos[s].bearing(g) - turn[s] - 180.0) * 3.14159265358979 / 180.0;
      xy const p{centre[s].x + d * std::cos(b), centre[s].y + d * std::sin(b)};
      double const f = len < 1e-9 ? 0 : ((p.x - from.x) * (to.x - from.x) + (p.y - from.y) * (to.y - from.y)) / (len * len);
      double const off = std::hypot(p.x - (from.x + f * (to.x - from.x)), p.y - (from.y + f * (to.y - from.y)));
      double const tol = 0.5 + 0.01 * d + 0.005 * len;
      if (!c.check(off <= tol && f * len >= -tol && f * len <= len + tol, "track-element-on-line", "a track element of station ",
                   n.stations[s].ds100, " lies ", off, " units off the line of its section, at ", f, " of its length ", len))
        return;
      if (len > 20 * tol) {
        if (idx > 0) {
          if (!c.check(f * len > last * len + 0.0 - tol * 0.2, "track-element-order", "track elements of a section of station ",
                       n.stations[s].ds100, " are not in their order: ", last, " then ", f))
            return;
          if (gap >= 0) {
            if (!c.check(std::fabs(f - last - gap) * len <= 2 * tol, "track-element-spacing", "spacing ", gap, " then ", f - last))
              return;
          } else {
            gap = f - last;
            if (!c.check(gap * len > 0.25 * len / static_cast<double>(sec.rising_order_.size()), "track-element-spacing",
                         "two track elements at one place: ", gap))
              return;
          }
        }
        last = f;
        ++idx;
        c.stat("track_positions_ordered");
      }
    }
  }

  // --- the turn brings the borders of neighbouring stations close together ---
  struct link {
    element::ptr a, b;
    int other;
  };
  std::vector<std::vector<link>> links(n.stations.size());
  for (std::size_t e = 0; e < n.elems.size(); ++e) {
    if (n.elems[e].k != BORDER || n.elems[e].partner < 0) continue;
    auto const p = n.elems[e].partner;
    links[n.elems[e].station].push_back({w.elem[e], w.elem[p], n.elems[p].station});
  }
  // (with the arithmetic of U03: the choice between turns may be a close one)
  auto const place = [&](element::ptr e, double deg) {
    auto const s = station_of.at(e);
    soro::utls::polar const p(10.0 * (plan[e].x - centre[s].x), 10.0 * (plan[e].y - centre[s].y));
    auto const g = pos[s].move(p.dist_, p.bearing_);
    return pos[s].move(pos[s].distance(g), pos[s].bearing(g) + deg);
  };
  std::vector<double> now(n.stations.size(), 0.0);
  bool clear = true;
  for (int pass = 0; pass < 3 && clear; ++pass) {
    auto next = now;
    for (int s = 0; s < ns && clear; ++s) {
      if (links[s].empty()) continue;
      std::vector<std::pair<double, double>> score;
      for (double deg = 0; deg < 360; deg += 5) {
        double sum = 0;
        for (auto const& l : links[s]) sum += place(l.a, deg).distance(place(l.b, now[l.other]));
        score.push_back({sum, deg});
      }
      std::sort(score.begin(), score.end());
      next[s] = score[0].second;
      // too close to call
      if (score[1].first - score[0].first < 1e-8 * score[0].first + 1e-3) clear = false;
    }
    now = next;
  }
  c.stat("turns_too_close_to_call", !clear);
  for (int s = 0; clear && s < ns; ++s) {
    if (turn[s] < 0 || links[s].empty()) continue;
    c.stat("turns_checked");
    c.eq(turn[s], now[s], "station-turn", "degrees by which station ", n.stations[s].ds100, " is turned");
  }
}
