// A generated railway network, its ISS files, and what it must parse to.
// Nothing in here uses the parser's code: the expected graph, routes and
// positions are derived from the network alone.
#pragma once

#include <filesystem>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "common.h"

#include "soro/infrastructure/graph/type.h"

namespace mdl {

using vh::rng;
using soro::infra::type;

// kinds of elements on the ends of sections
enum kind { BUMPER, TRACK_END, BORDER, KM_JUMP, LINE_SWITCH, SWITCH, CROSS };

struct track_kind {
  char const* base;  // xml name, directed kinds get S (rising) or F (falling)
  type t;
  bool directed;
  int order;  // rank among elements at the same kilometre (falling: +1)
};

inline std::vector<track_kind> const& track_kinds() {
  static std::vector<track_kind> const v = {
      {"Tunnel", type::TUNNEL, false, 0},
      {"Neigung", type::SLOPE, false, 10},
      {"Zugang", type::ENTRY, false, 20},
      {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT_UNDIRECTED, false, 100},
      {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT, true, 101},
      {"HalteplatzGz", type::HALT, true, 110},
      {"HalteplatzRzLinks", type::HALT, true, 110},
      {"HalteplatzRzRechts", type::HALT, true, 110},
      {"HalteplatzRzBeide", type::HALT, true, 110},
      {"HalteplatzRzRechtsLinks", type::HALT, true, 110},
      {"Hauptsignal", type::MAIN_SIGNAL, true, 120},
      {"Vorsignal", type::APPROACH_SIGNAL, true, 130},
      {"Schutzsignal", type::PROTECTION_SIGNAL, true, 140},
      {"SignalZugschlussstelle", type::EOTD, true, 150},
      {"FstrZugschlussstelle", type::EOTD, true, 150},
      {"LZBAnfang", type::LZB_START, true, 160},
      {"LZBBlockkennzeichen", type::LZB_BLOCK_SIGN, true, 170},
      {"LZBEnde", type::LZB_END, true, 180},
      {"ETCSAnfang", type::ETCS_START, true, 190},
      {"ETCSBlockkennzeichen", type::ETCS_BLOCK_SIGN, true, 200},
      {"ETCSEnde", type::ETCS_END, true, 210},
      {"GeschwZulaessig", type::SPEED_LIMIT, true, 220},
      {"GeschwEndeSpeziell", type::SPEED_LIMIT, true, 220},
      {"Zwangshalt", type::FORCED_HALT, true, 230},
      {"Punktgeschw", type::POINT_SPEED, true, 240},
      {"Bremsweg", type::BRAKE_PATH, true, 250},
      {"Gleisbezeichnung", type::TRACK_NAME, false, 300},
      {"Bahnuebergang", type::LEVEL_CROSSING, false, 310}};
  return v;
}

struct speed_spec {
  int kmh{-1};  // -1: not given
  int length{-1};  // metres, -1: not given
  bool in_km{false};
  bool calculated{false};
  bool at_signal{false};
  int effects{0};  // 0 all 1 conventional 2 lzb
};

// an element within a section
struct track_node {
  std::uint64_t id{0};
  int k{0};  // index into track_kinds()
  bool rising{false};
  int km{0};  // 0.1 m
  std::string name, op, ext;
  int slope_up{0}, slope_down{0};  // 1/100 per mille
  speed_spec spl;
  track_kind const& kind() const { return track_kinds()[k]; }
  int order() const {
    auto const& tk = kind();
    if (!tk.directed) return tk.order;
    // the two directed runtime checkpoints are 101 and 102, all others n, n+1
    return rising ? tk.order : tk.order + 1;
  }
  std::string tag() const {
    std::string s = kind().base;
    if (kind().directed) s += rising ? "S" : "F";
    return s;
  }
};

struct port {
  int section{-1};  // -1: none (border towards the neighbour)
  bool at_start{false};  // the port is the first node of its section
  std::uint64_t id{0};
  int line{0};
  int km{0};
  int x{0}, y{0};
};

struct elem {
  kind k{BUMPER};
  int station{-1};
  std::vector<port> ports;
  // borders
  int sign{0};
  std::string neighbour;
  int partner{-1};
  // crosses: arcs SL-ER and SR-EL; switches: branch to the left
  bool arc1{false}, arc2{false}, left{false};
  std::string name, ui;
  bool has_ui{false};
};
// ports: end elements {0}; BORDER {0}; KM_JUMP {0 Anfang, 1 Ende};
// LINE_SWITCH {0, 1}; SWITCH {0 start, 1 stem, 2 branch};
// CROSS {0 start left, 1 end left, 2 start right, 3 end right}

struct section {
  int station{0};
  int line{0};
  int e[2]{-1, -1};  // elements at start and end
  int p[2]{0, 0};  // their ports
  std::vector<track_node> mids;  // in file order
  // expected order of travel, indices into mids
  std::vector<int> chain[2];  // 0 falling, 1 rising
};

// one node of the expected graph
struct state {
  int what{0};  // 0 section element, 1 track element, 2 filler
  int a{0};  // element | section
  int b{0};  // variant | index in mids | direction
  int c{0};  // direction (track elements)
  int next{-1}, branch{-1};
};

struct route {
  int station{0};
  std::string name;
  std::vector<int> states;  // path
  std::vector<bool> course;  // true: branch
  std::uint64_t start{0}, end{0};
  std::set<int> omitted;  // positions
  std::map<int, std::vector<std::pair<speed_spec, int>>> spls;  // position -> (spec, tag)
  int passenger{-1}, freight{-1}, checkpoint{-1};
  std::set<int> attributes;
  bool publish_only{false};
  // filled for parsed routes only
  int id{-1};
  std::vector<int> signals;  // positions of main signals that are not omitted
};

struct line_segment {
  int from, to, key;
};
struct line_info {
  int id{0};
  bool rev{false};
  std::vector<line_segment> segments;
};

struct station {
  std::string ds100, name;
  bool has_name{false};
  std::vector<int> sections;  // in file order
  double lat{0}, lon{0};
};

struct options {
  int stations{3};
  int ops{3};
  int mids{5};
  bool routes{true};
  bool etcs{true};
  bool layout{false};
  unsigned signal_weight{25};
  unsigned max_routes{40};
  // wide: long sections, positions on a grid, every speed limit with a speed
  bool wide{false};
};

struct network {
  options o;
  std::vector<line_info> lines;
  std::vector<elem> elems;
  std::vector<section> sections;
  std::vector<station> stations;
  std::vector<int> station_order;  // order of the stations in the files
  std::vector<std::vector<int>> files;
  std::vector<state> states;
  std::vector<route> routes;  // in file order per station (see route_order)
  std::vector<std::vector<int>> routes_of;  // station -> routes in file order
  std::map<std::pair<int, int>, int> elem_state;  // (elem, entry port) -> state
  std::map<std::tuple<int, int, int>, int> mid_state;  // section, idx, dir
  std::map<std::pair<int, int>, int> meta_state;  // section, dir
  std::uint32_t version{1};
  int default_form_time{120}, default_brake_path{10000}, default_kmh{100};  // in tenths
  int unknown_borders{0};

  std::uint64_t next_id{1000};
  std::uint64_t fresh(rng& r) { return next_id += 1 + r.below(37); }

  // --- geometry -----------------------------------------------------------
  struct open {
    int e, p, line, km;
  };

  static std::string km_text(int km, rng& r) {
    char buf[64];
    auto fmt = [](int v, char sep) {
      char b[48];
      std::snprintf(b, sizeof(b), "%d%c%04d", v / 10000, sep, v % 10000);
      std::string s = b;
      while (s.back() == '0') s.pop_back();
      if (s.back() == sep) s.pop_back();
      return s;
    };
    if (r.chance(8) && km > 10) {
      auto const extra = static_cast<int>(r.below(static_cast<std::uint64_t>(km)));
      std::snprintf(buf, sizeof(buf), "%s+%s", fmt(km - extra, ',').c_str(), fmt(extra, ',').c_str());
      return buf;
    }
    return fmt(km, ',');
  }
  static std::string decimals(int v, int scale) {  // v / scale with comma
    char b[48];
    int digits = scale == 100 ? 2 : scale == 10 ? 1 : 0;
    if (digits == 0) {
      std::snprintf(b, sizeof(b), "%d", v);
    } else {
      std::snprintf(b, sizeof(b), "%d,%0*d", v / scale, digits, v % scale);
    }
    return b;
  }

  bool rev(int line) const {
    for (auto const& l : lines) {
      if (l.id == line) return l.rev;
    }
    return false;
  }
  int pick_line(rng& r) { return lines[r.below(lines.size())].id; }

  int add_elem(kind k, int st, int ports, rng& r) {
    elem e;
    e.k = k;
    e.station = st;
    e.ports.resize(static_cast<std::size_t>(ports));
    for (auto& p : e.ports) {
      p.id = fresh(r);
      p.x = static_cast<int>(r.below(2000));
      p.y = static_cast<int>(r.below(2000));
    }
    r.shuffle(e.ports);  // ids in no particular order
    e.name = "W" + std::to_string(r.below(300));
    e.has_ui = r.chance(40);
    e.ui = e.has_ui ? "ui" + std::to_string(r.below(99)) : "";
    elems.push_back(e);
    return static_cast<int>(elems.size()) - 1;
  }

  void fill_mids(section& s, int lo, int hi, rng& r) {
    auto const n = r.below(static_cast<std::uint64_t>(o.mids) + 1);
    std::vector<int> kms = {lo, hi};
    for (std::uint64_t i = 0; i < n; ++i) {
      track_node t;
      t.id = fresh(r);
      t.km = r.chance(25) ? kms[r.below(kms.size())] : static_cast<int>(r.in(lo, hi));
      if (o.wide) t.km = lo + (t.km - lo) / 100 * 100;
      kms.push_back(t.km);
      auto const& ks = track_kinds();
      auto const dice = r.below(100);
      auto find = [&](type ty) {
        std::vector<int> c;
        for (std::size_t j = 0; j < ks.size(); ++j) {
          if (ks[j].t == ty) c.push_back(static_cast<int>(j));
        }
        return c[r.below(c.size())];
      };
      if (dice < o.signal_weight) {
        t.k = find(type::MAIN_SIGNAL);
      } else if (dice < o.signal_weight + (o.wide ? 25 : 18)) {
        t.k = find(type::HALT);
      } else if (dice < o.signal_weight + (o.wide ? 48 : 26)) {
        t.k = find(type::SPEED_LIMIT);
      } else {
        do {
          t.k = static_cast<int>(r.below(ks.size()));
        } while (!o.etcs && soro::infra::is_etcs(ks[t.k].t));
      }
      t.rising = r.chance(50);
      static char const* names[] = {"A", "N1", "P 2", "12-3", "Zs&amp;3", "&lt;x&gt;", "", "\xC3\xBC"};
      t.name = names[r.below(8)];
      t.op = r.chance(50) ? "b" + std::to_string(r.below(50)) : "";
      t.ext = r.chance(50) ? "e" + std::to_string(r.below(50)) : "";
      t.slope_up = static_cast<int>(r.below(4000));
      t.slope_down = static_cast<int>(r.below(4000));
      t.spl = random_spl(r, o.wide);
      s.mids.push_back(t);
    }
    // the order of equal kilometres is by id: shuffle ids and file order
    r.shuffle(s.mids);
  }

  static speed_spec random_spl(rng& r, bool given) {
    speed_spec s;
    s.kmh = given || r.chance(90) ? static_cast<int>(r.in(1, 33)) * 5 : -1;
    if (given && r.chance(50)) s.kmh = std::max(s.kmh, static_cast<int>(r.in(1, 33)) * 5);
    s.length = r.chance(25) ? static_cast<int>(r.in(1, 900)) : -1;
    s.in_km = r.chance(40);
    s.calculated = r.chance(30);
    s.at_signal = s.length < 0 && r.chance(35);
    s.effects = static_cast<int>(r.below(given && r.chance(70) ? 2 : 3));
    return s;
  }

  // closes an open track at port p of element e, which lies to the right
  void close(open const& t, int e, int p, rng& r) {
    static int const lens[] = {0, 1, 10, 250, 1000, 5000, 12345, 30000};
    auto len = r.chance(10) ? lens[r.below(8)] : static_cast<int>(r.in(1, 20000));
    if (o.wide) len = static_cast<int>(r.in(r.chance(20) ? 1 : 40, r.chance(20) ? 100 : 400)) * 100;
    bool const rv = rev(t.line);
    if (rv && t.km - len < 0) len = t.km;
    int const km = rv ? t.km - len : t.km + len;
    section s;
    s.station = elems[e].station;
    s.line = t.line;
    int const left = rv ? 1 : 0;
    s.e[left] = t.e;
    s.p[left] = t.p;
    s.e[1 - left] = e;
    s.p[1 - left] = p;
    auto const id = static_cast<int>(sections.size());
    auto set = [&](int el, int po, bool start, int k) {
      auto& pt = elems[el].ports[po];
      pt.section = id;
      pt.at_start = start;
      pt.line = t.line;
      pt.km = k;
    };
    set(t.e, t.p, left == 0, t.km);
    set(e, p, left == 1, km);
    fill_mids(s, std::min(t.km, km), std::max(t.km, km), r);
    sections.push_back(s);
    stations[s.station].sections.push_back(id);
    closed_km = km;
  }
  int closed_km{0};

  void build(rng& r, options opt) {
    o = opt;
    version = static_cast<std::uint32_t>(r.below(100000));
    default_kmh = static_cast<int>(5 * (4 + r.below(45)));
    default_form_time = static_cast<int>(1 + r.below(400));
    default_brake_path = static_cast<int>(3000 + r.below(12000));
    auto const nl = 1 + r.below(4);
    std::set<int> ids;
    while (ids.size() < nl) ids.insert(static_cast<int>(r.in(1, r.chance(20) ? 65000 : 7000)));
    for (auto const id : ids) {
      line_info l;
      l.id = id;
      l.rev = r.chance(35);
      lines.push_back(l);
    }
    r.shuffle(lines);

    std::vector<open> opens, later;
    int sign = 1000;
    std::set<std::tuple<int, int, int>> used_signs;
    auto start_km = [&](int line) {
      return rev(line) ? static_cast<int>(r.in(900000, 2000000))
                       : r.chance(15) ? 0 : static_cast<int>(r.in(0, 300000));
    };
    auto end_elem = [&](int st, rng& rr) {
      return add_elem(rr.chance(50) ? BUMPER : TRACK_END, st, 1, rr);
    };
    auto unknown_border = [&](int st) {
      auto const e = add_elem(BORDER, st, 1, r);
      elems[e].neighbour = "ZZ" + std::to_string(r.below(5));
      elems[e].sign = ++sign;
      ++unknown_borders;
      return e;
    };

    for (int st = 0; st < o.stations; ++st) {
      station s;
      s.ds100 = std::string(1, static_cast<char>('A' + st % 26)) + "B" + std::to_string(st) +
                (r.chance(20) ? " X" : "");
      s.has_name = r.chance(70);
      s.name = r.chance(12) ? std::string(1, static_cast<char>(97 + st % 26)) + (st < 26 ? "" : std::to_string(st / 26)) : "Station " + std::to_string(st);
      stations.push_back(s);

      if (opens.empty() || r.chance(20)) {
        auto const line = pick_line(r);
        auto const e = r.chance(60) ? end_elem(st, r) : unknown_border(st);
        opens.insert(opens.begin() + static_cast<long>(r.below(opens.size() + 1)),
                     open{e, 0, line, start_km(line)});
      }
      auto const nops = r.below(static_cast<std::uint64_t>(o.ops) + 1);
      for (std::uint64_t op = 0; op < nops; ++op) {
        auto const i = r.below(opens.size());
        auto leg = [&](int e, int p, int line, int km) {
          // a leg stays on its line, or starts another one
          if (r.chance(20)) {
            auto const l = pick_line(r);
            if (l != line) return open{e, p, l, start_km(l)};
          }
          return open{e, p, line, r.chance(90) ? km : std::max(0, km + static_cast<int>(r.in(-20, 20)))};
        };
        switch (r.below(8)) {
          case 0:
          case 1: {  // facing switch
            if (opens.size() > 5) break;
            auto const e = add_elem(SWITCH, st, 3, r);
            elems[e].left = r.chance(50);
            auto const in = opens[i];
            close(in, e, 0, r);
            auto a = leg(e, 1, in.line, closed_km), b = leg(e, 2, in.line, closed_km);
            if (r.chance(50)) std::swap(a, b);
            opens[i] = a;
            opens.insert(opens.begin() + static_cast<long>(i) + 1, b);
            break;
          }
          case 2:
          case 3: {  // trailing switch
            if (opens.size() < 2) break;
            auto const j = std::min<std::uint64_t>(i, opens.size() - 2);
            auto const e = add_elem(SWITCH, st, 3, r);
            elems[e].left = r.chance(50);
            int const stem = r.chance(50) ? 1 : 2;
            auto const a = opens[j], b = opens[j + 1];
            close(a, e, stem, r);
            auto const km_a = closed_km;
            close(b, e, 3 - stem, r);
            auto const km_b = closed_km;
            auto const from_a = r.chance(50);
            opens[j] = leg(e, 0, from_a ? a.line : b.line, from_a ? km_a : km_b);
            opens.erase(opens.begin() + static_cast<long>(j) + 1);
            break;
          }
          case 4: {  // cross
            if (opens.size() < 2) break;
            auto const j = std::min<std::uint64_t>(i, opens.size() - 2);
            auto const e = add_elem(CROSS, st, 4, r);
            elems[e].arc1 = r.chance(55);
            elems[e].arc2 = r.chance(55);
            bool const mirror = r.chance(40);
            int const in1 = mirror ? 1 : 0, out1 = mirror ? 0 : 1;
            auto const a = opens[j], b = opens[j + 1];
            close(a, e, in1, r);
            auto const km_a = closed_km;
            close(b, e, in1 + 2, r);
            auto const km_b = closed_km;
            opens[j] = leg(e, out1 + 2, b.line, km_b);
            opens[j + 1] = leg(e, out1, a.line, km_a);
            break;
          }
          case 5: {  // km jump
            auto const e = add_elem(KM_JUMP, st, 2, r);
            auto const in = opens[i];
            bool const rv = rev(in.line);
            close(in, e, rv ? 0 : 1, r);
            opens[i] = open{e, rv ? 1 : 0, in.line, start_km(in.line)};
            break;
          }
          case 6: {  // line switch
            if (lines.size() < 2) break;
            auto const e = add_elem(LINE_SWITCH, st, 2, r);
            auto const in = opens[i];
            int const p = r.chance(50) ? 0 : 1;
            close(in, e, p, r);
            int l = in.line;
            while (l == in.line) l = pick_line(r);
            opens[i] = open{e, 1 - p, l, start_km(l)};
            break;
          }
          default: {
            if (opens.size() > 1 && r.chance(50)) {
              auto const e = r.chance(75) ? end_elem(st, r) : unknown_border(st);
              close(opens[i], e, 0, r);
              opens.erase(opens.begin() + static_cast<long>(i));
            } else if (opens.size() < 5) {
              auto const line = pick_line(r);
              auto const e = r.chance(75) ? end_elem(st, r) : unknown_border(st);
              opens.push_back(open{e, 0, line, start_km(line)});
            }
          }
        }
      }
      // leave the station
      std::vector<open> carried;
      for (auto const& t : opens) {
        if (st + 1 == o.stations || (r.chance(15) && carried.size() + 1 < opens.size())) {
          close(t, r.chance(60) ? end_elem(st, r) : unknown_border(st), 0, r);
          continue;
        }
        auto const a = add_elem(BORDER, st, 1, r);
        // some lines pass the next station by
        auto const to = st + 2 < o.stations && r.chance(12) ? static_cast<int>(r.in(st + 2, o.stations - 1)) : st + 1;
        auto const b = add_elem(BORDER, to, 1, r);
        elems[a].partner = b;
        elems[b].partner = a;
        // the same sign may appear again on another line or at other stations
        int sg = static_cast<int>(r.in(1, 3));
        while (!used_signs.insert({st, t.line, sg}).second) ++sg;
        elems[a].sign = elems[b].sign = sg;
        close(t, a, 0, r);
        if (to != st + 1) {
          later.push_back(open{b, 0, t.line, closed_km});
          continue;
        }
        carried.push_back(open{b, 0, t.line, closed_km});
      }
      opens = carried;
      for (auto it = later.begin(); it != later.end();) {
        if (elems[it->e].station == st + 1) {
          opens.insert(opens.begin() + static_cast<long>(r.below(opens.size() + 1)), *it);
          it = later.erase(it);
        } else {
          ++it;
        }
      }
    }
    for (auto& e : elems) {
      if (e.k != BORDER) continue;
      if (e.partner >= 0) {
        e.neighbour = stations[elems[e.partner].station].ds100;
      } else if (stations.size() > 1 && r.chance(40)) {
        // the neighbour exists, but knows no such border
        auto const k = (static_cast<std::size_t>(e.station) + 1 + r.below(stations.size() - 1)) % stations.size();
        e.neighbour = stations[k].ds100;
      }
    }
    for (auto& s : stations) r.shuffle(s.sections);
    for (std::size_t i = 0; i < stations.size(); ++i) station_order.push_back(static_cast<int>(i));
    r.shuffle(station_order);
    auto const nf = 1 + r.below(3);
    files.resize(nf);
    for (auto const s : station_order) files[r.below(nf)].push_back(s);
    station_order.clear();
    for (auto const& f : files) station_order.insert(station_order.end(), f.begin(), f.end());

    for (auto& l : lines) {
      static int const keys[] = {1, 2, 3, 6, 8, 9, 12, 13, 14, 15, 18, 20, 21, 23, 24};
      auto const n = 1 + r.below(4);
      int km = static_cast<int>(r.in(0, 400000));
      for (std::uint64_t i = 0; i < n; ++i) {
        auto const to = km + static_cast<int>(r.in(1, 600000));
        l.segments.push_back({km, to, o.etcs ? keys[r.below(15)] : 1});
        km = to;
      }
    }
    chains();
    build_states();
    if (o.routes) build_routes(r);
  }

  void chains() {
    for (auto& s : sections) {
      for (int dir = 0; dir < 2; ++dir) {
        std::vector<int> v;
        for (std::size_t i = 0; i < s.mids.size(); ++i) {
          auto const& m = s.mids[i];
          if (!m.kind().directed || m.rising == (dir == 1)) v.push_back(static_cast<int>(i));
        }
        std::sort(v.begin(), v.end(), [&](int a, int b) {
          auto const &x = s.mids[a], &y = s.mids[b];
          if (x.km != y.km) return dir == 1 ? x.km < y.km : x.km > y.km;
          if (x.order() != y.order()) return x.order() < y.order();
          return x.id < y.id;
        });
        s.chain[dir] = v;
      }
    }
  }

  // --- expected graph -------------------------------------------------------
  int add_state(int what, int a, int b, int c = 0) {
    states.push_back({what, a, b, c});
    return static_cast<int>(states.size()) - 1;
  }

  // the state in which a train is after entering section s at its end `at`
  // (0 start, 1 end) and moving on to the first thing on the way
  int enter(int s, int at) const {
    int const dir = at == 0 ? 1 : 0;
    auto const& sec = sections[s];
    if (sec.chain[dir].empty()) return meta_state.at({s, dir});
    auto const i = sec.chain[dir].front();
    return mid_state.at({s, i, dir});
  }
  int leave_section(int s, int dir) const {  // reached the far end
    auto const& sec = sections[s];
    int const far = dir == 1 ? 1 : 0;
    return elem_state.at({sec.e[far], sec.p[far]});
  }
  // leaving element e through port p
  int leave(int e, int p) const {
    auto const& pt = elems[e].ports[p];
    return enter(pt.section, pt.at_start ? 0 : 1);
  }

  void build_states() {
    for (std::size_t i = 0; i < elems.size(); ++i) {
      auto const e = static_cast<int>(i);
      switch (elems[i].k) {
        case BUMPER:
        case TRACK_END:
        case BORDER:
          // -1: coming from beyond
          elem_state[{e, -1}] = add_state(0, e, -1);
          elem_state[{e, 0}] = add_state(0, e, 0);
          break;
        case KM_JUMP:
        case LINE_SWITCH:
          elem_state[{e, 0}] = add_state(0, e, 0);
          elem_state[{e, 1}] = add_state(0, e, 1);
          break;
        case SWITCH:
          elem_state[{e, 0}] = add_state(0, e, 0);
          elem_state[{e, 1}] = elem_state[{e, 2}] = add_state(0, e, 1);
          break;
        case CROSS:
          for (int p = 0; p < 4; ++p) elem_state[{e, p}] = add_state(0, e, p);
          break;
      }
    }
    for (std::size_t i = 0; i < sections.size(); ++i) {
      auto const s = static_cast<int>(i);
      for (int dir = 0; dir < 2; ++dir) {
        for (auto const m : sections[i].chain[dir]) mid_state[{s, m, dir}] = add_state(1, s, m, dir);
        if (sections[i].chain[dir].empty()) meta_state[{s, dir}] = add_state(2, s, dir, dir);
      }
    }
    for (auto& st : states) {
      if (st.what == 0) {
        auto const& e = elems[st.a];
        switch (e.k) {
          case BUMPER:
          case TRACK_END:
            if (st.b == -1) st.next = leave(st.a, 0);
            break;
          case BORDER:
            if (st.b == -1) {
              st.next = leave(st.a, 0);
            } else if (e.partner >= 0) {
              st.next = elem_state.at({e.partner, -1});
            }
            break;
          case KM_JUMP:
          case LINE_SWITCH: st.next = leave(st.a, 1 - st.b); break;
          case SWITCH:
            if (st.b == 0) {
              st.next = leave(st.a, 1);
              st.branch = leave(st.a, 2);
            } else {
              st.next = leave(st.a, 0);
            }
            break;
          case CROSS: {
            // straight: SL-EL, SR-ER; arc1 SL-ER, arc2 SR-EL
            static int const straight[] = {1, 0, 3, 2}, bent[] = {3, 2, 1, 0};
            st.next = leave(st.a, straight[st.b]);
            bool const arc = (st.b == 0 || st.b == 3) ? e.arc1 : e.arc2;
            if (arc) st.branch = leave(st.a, bent[st.b]);
            break;
          }
        }
      } else if (st.what == 1) {
        auto const& ch = sections[st.a].chain[st.c];
        auto it = std::find(ch.begin(), ch.end(), st.b);
        ++it;
        st.next = it == ch.end() ? leave_section(st.a, st.c) : mid_state.at({st.a, *it, st.c});
      } else {
        st.next = leave_section(st.a, st.c);
      }
    }
  }

  type type_of(int s) const {
    auto const& st = states[s];
    if (st.what == 2) return type::META;
    if (st.what == 1) return sections[st.a].mids[st.b].kind().t;
    static type const ts[] = {type::BUMPER, type::TRACK_END, type::BORDER, type::KM_JUMP,
                              type::LINE_SWITCH, type::SIMPLE_SWITCH, type::CROSS};
    return ts[elems[st.a].k];
  }
  bool is_switch(int s) const {
    auto const& st = states[s];
    if (st.what != 0) return false;
    auto const& e = elems[st.a];
    return e.k == SWITCH || (e.k == CROSS && (e.arc1 || e.arc2));
  }
  int station_of(int s) const {
    auto const& st = states[s];
    return st.what == 0 ? elems[st.a].station : sections[st.a].station;
  }
  // nothing beyond
  bool dead_end(int e) const {
    return elems[e].k == BUMPER || elems[e].k == TRACK_END || (elems[e].k == BORDER && elems[e].partner < 0);
  }
  bool directed(int s) const {
    auto const& st = states[s];
    return st.what == 2 || (st.what == 1 && sections[st.a].mids[st.b].kind().directed);
  }

  // --- routes -----------------------------------------------------------------
  void build_routes(rng& r) {
    routes_of.resize(stations.size());
    std::vector<std::vector<int>> starts(stations.size());
    for (std::size_t i = 0; i < states.size(); ++i) {
      auto const s = static_cast<int>(i);
      auto const& st = states[i];
      if (st.what == 0 && st.b == -1) {
        starts[station_of(s)].push_back(s);
        starts[station_of(s)].push_back(s);
      }
      if (type_of(s) == type::HALT && r.chance(50)) starts[station_of(s)].push_back(s);
    }
    for (std::size_t st = 0; st < stations.size(); ++st) {
      if (starts[st].empty()) continue;
      auto const n = o.wide ? o.max_routes / 2 + r.below(o.max_routes / 2 + 1) : r.below(o.max_routes + 1);
      std::set<std::pair<std::vector<int>, std::vector<int>>> seen;
      for (std::uint64_t i = 0; i < n; ++i) {
        route rt;
        rt.station = static_cast<int>(st);
        int s = starts[st][r.below(starts[st].size())];
        rt.states = {s};
        bool const to_halt = r.chance(25);
        for (;;) {
          if (rt.states.size() > 1) {
            auto const& cur = states[s];
            if (cur.what == 0 && (elems[cur.a].k <= BORDER)) break;
            if (to_halt && type_of(s) == type::HALT && r.chance(60)) break;
          }
          int nx = states[s].next;
          bool br = false;
          if (states[s].branch >= 0 && r.chance(50)) {
            nx = states[s].branch;
            br = true;
          }
          if (is_switch(s)) {
            // a trailing switch has an entry too, it decides nothing
            rt.course.push_back(states[s].branch >= 0 ? br : r.chance(30));
          }
          s = nx;
          rt.states.push_back(s);
        }
        if (is_switch(s)) rt.course.push_back(false);
        finish_route(rt, r, seen.empty() ? 0 : 1);
        rt.name = "F" + std::to_string(i) + (r.chance(30) ? "/x" : "");
        rt.publish_only = r.chance(6);
        routes.push_back(rt);
        routes_of[st].push_back(static_cast<int>(routes.size()) - 1);
        // the same path again under another name, with other details
        if (r.chance(12)) {
          route copy;
          copy.station = rt.station;
          copy.states = rt.states;
          copy.course = rt.course;
          copy.name = rt.name + "b";
          finish_route(copy, r, 1);
          routes.push_back(copy);
          routes_of[st].push_back(static_cast<int>(routes.size()) - 1);
        }
      }
      r.shuffle(routes_of[st]);
    }
    int id = 0;
    for (auto const st : station_order) {
      for (auto const ri : routes_of[st]) {
        if (!routes[ri].publish_only) routes[ri].id = id++;
      }
    }
  }

  std::uint64_t xml_id(int s) const {
    auto const& st = states[s];
    if (st.what == 0) return elems[st.a].ports[0].id;
    return sections[st.a].mids[st.b].id;
  }

  void finish_route(route& rt, rng& r, int) {
    rt.start = xml_id(rt.states.front());
    rt.end = xml_id(rt.states.back());
    for (std::size_t i = 0; i < rt.states.size(); ++i) {
      auto const s = rt.states[i];
      auto const& st = states[s];
      if (st.what == 1 && directed(s)) {
        auto const t = type_of(s);
        if (r.chance(t == type::MAIN_SIGNAL ? 12 : 8)) rt.omitted.insert(static_cast<int>(i));
        if (t == type::HALT) {
          auto const& base = std::string(sections[st.a].mids[st.b].kind().base);
          bool const rz = base.find("Rz") != std::string::npos;
          // now and then a place is used by the other kind of train, too, and by both
          int const own = o.wide ? 90 : 60, other = 10;
          if (r.chance(rz ? own : other)) rt.passenger = static_cast<int>(i);
          if (r.chance(rz ? other : own)) rt.freight = static_cast<int>(i);
          if (r.chance(4)) rt.checkpoint = static_cast<int>(i);
        }
        if (t == type::RUNTIME_CHECKPOINT && r.chance(60)) rt.checkpoint = static_cast<int>(i);
        if (r.chance(8)) rt.spls[static_cast<int>(i)].push_back({random_spl(r, o.wide), static_cast<int>(r.below(2))});
      } else if (st.what == 1) {
        if (type_of(s) == type::RUNTIME_CHECKPOINT_UNDIRECTED && r.chance(60)) rt.checkpoint = static_cast<int>(i);
      } else if (st.what == 0) {
        if (r.chance(8)) rt.spls[static_cast<int>(i)].push_back({random_spl(r, o.wide), static_cast<int>(r.below(2))});
      }
    }
    for (int a = 0; a < 11; ++a) {
      if (r.chance(20)) rt.attributes.insert(a);
    }
    for (std::size_t i = 0; i < rt.states.size(); ++i) {
      if (type_of(rt.states[i]) == type::MAIN_SIGNAL && !rt.omitted.count(static_cast<int>(i))) {
        rt.signals.push_back(static_cast<int>(i));
      }
    }
  }

  // --- xml --------------------------------------------------------------------
  static std::string q(std::uint64_t v) { return std::to_string(v); }
  std::string ref(char const* tag, std::uint64_t id) const {
    return std::string("<") + tag + " ID=\"" + q(id) + "\"/>";
  }

  std::string end_node(int e, int p, rng& r) const {
    auto const& el = elems[e];
    auto const& pt = el.ports[p];
    std::string tag, extra;
    auto other = [&](int i) { return el.ports[i].id; };
    switch (el.k) {
      case BUMPER: tag = "Prellbock"; break;
      case TRACK_END: tag = "Gleisende"; break;
      case BORDER:
        tag = "Betriebsstellengrenze";
        extra = "<PartnerBtrst>" + el.neighbour + "</PartnerBtrst><Gleiskennzeichen>" +
                std::to_string(el.sign) + "</Gleiskennzeichen>";
        break;
      case KM_JUMP:
        tag = p == 0 ? "KmSprungAnfang" : "KmSprungEnde";
        extra = ref("Partnerknoten", other(1 - p));
        break;
      case LINE_SWITCH:
        tag = p == 0 ? "Streckenwechsel0" : "Streckenwechsel1";
        extra = ref("Partnerknoten", other(1 - p));
        break;
      case SWITCH:
        tag = p == 0 ? "Weichenanfang" : p == 1 ? "Weichenstamm"
              : el.left ? "WeichenabzweigLinks" : "WeichenabzweigRechts";
        if (p == 0) {
          extra = "<Name>" + el.name + "</Name>";
          if (el.has_ui) extra += "<Oberflaechenbezeichner>" + el.ui + "</Oberflaechenbezeichner>";
          extra += ref("PartnerStamm", other(1)) + ref("PartnerAbzweig", other(2));
        } else {
          extra = ref("Partner", other(0));
        }
        break;
      case CROSS: {
        bool const cs = el.arc1 || el.arc2;
        static char const* plain[] = {"KreuzungAnfangLinks", "KreuzungEndeLinks",
                                      "KreuzungAnfangRechts", "KreuzungEndeRechts"};
        static char const* sw[] = {"KreuzungsweicheAnfangLinks", "KreuzungsweicheEndeLinks",
                                   "KreuzungsweicheAnfangRechts", "KreuzungsweicheEndeRechts"};
        tag = cs ? sw[p] : plain[p];
        static int const straight[] = {1, 0, 3, 2}, bent[] = {3, 2, 1, 0};
        extra = ref("NachbarGeradeaus", other(straight[p]));
        bool const arc = (p == 0 || p == 3) ? el.arc1 : el.arc2;
        if (arc) extra += ref("NachbarAbzweig", other(bent[p]));
        if (p == 2 || p == 3) extra += ref("HauptknotenAnfang", other(0)) + ref("HauptknotenEnde", other(1));
        break;
      }
    }
    return node_xml(tag, pt.id, pt.km, extra, pt.x, pt.y, r);
  }

  // in tenths
  static std::string coord_xml(int x, int y) {
    return "<Bildkoordinaten><X>" + decimals(x, 10) + "</X><Y>" + decimals(y, 10) + "</Y></Bildkoordinaten>";
  }

  std::string node_xml(std::string const& tag, std::uint64_t id, int km, std::string const& extra,
                       int x, int y, rng& r) const {
    std::string s = "<" + tag + "><ID>" + q(id) + "</ID>";
    if (o.layout && x >= 0) {
      s += coord_xml(x, y);
    }
    s += "<Kilometrierung>" + km_text(km, r) + "</Kilometrierung>" + extra + "</" + tag + ">\n";
    return s;
  }

  static std::string spl_xml(speed_spec const& s) {
    std::string x;
    if (s.kmh >= 0) x += "<Geschw>" + std::to_string(s.kmh) + "</Geschw>";
    if (s.length >= 0) {
      if (s.in_km) {
        char b[32];
        std::snprintf(b, sizeof(b), "%d,%03d", s.length / 1000, s.length % 1000);
        x += std::string("<Laenge Einheit=\"km\">") + b + "</Laenge>";
      } else {
        x += "<Laenge Einheit=\"m\">" + std::to_string(s.length) + "</Laenge>";
      }
    }
    if (s.calculated) x += "<Berechnet/>";
    x += std::string("<Wirkungsort>") + (s.at_signal ? "Signal" : "Hier") + "</Wirkungsort>";
    static char const* eff[] = {"Alle", "Konventionell", "LZB"};
    x += std::string("<Zugbeeinflussung>") + eff[s.effects] + "</Zugbeeinflussung>";
    return x;
  }

  std::string mid_xml(track_node const& m, rng& r) const {
    std::string extra;
    switch (m.kind().t) {
      case type::MAIN_SIGNAL: extra = "<Name>" + m.name + "</Name>"; break;
      case type::HALT:
        extra = "<Name>" + m.name + "</Name><BezeichnerBetrieb>" + m.op + "</BezeichnerBetrieb><BezeichnerExtern>" +
                m.ext + "</BezeichnerExtern>";
        break;
      case type::SLOPE:
        extra = "<Steigend>" + decimals(m.slope_up, 100) + "</Steigend><Fallend>" + decimals(m.slope_down, 100) +
                "</Fallend>";
        break;
      case type::SPEED_LIMIT: extra = spl_xml(m.spl); break;
      default: break;
    }
    return node_xml(m.tag(), m.id, m.km, extra, -1, -1, r);
  }

  std::string station_xml(int st, rng& r) const {
    auto const& s = stations[st];
    std::string x = "<Spurplanbetriebsstelle><Betriebsstelle>" + s.ds100 + "</Betriebsstelle>\n<Spurplanabschnitte>\n";
    for (auto const si : s.sections) {
      auto const& sec = sections[si];
      x += "<Spurplanabschnitt><Strecke>" + std::to_string(sec.line) + "</Strecke><Spurplanknoten>\n";
      x += end_node(sec.e[0], sec.p[0], r);
      for (auto const& m : sec.mids) {
        if (r.chance(5)) {
          x += "<Bildpunkt><ID>" + q(1) + "</ID>" + (o.layout ? coord_xml(12345, 12) : "") +
               "<Kilometrierung>1,0</Kilometrierung></Bildpunkt>\n";
        }
        if (r.chance(5)) x += "<WarnfeldS><ID>2</ID><Kilometrierung>1,0</Kilometrierung></WarnfeldS>\n";
        x += mid_xml(m, r);
      }
      x += end_node(sec.e[1], sec.p[1], r);
      x += "</Spurplanknoten></Spurplanabschnitt>\n";
    }
    x += "</Spurplanabschnitte>\n";
    if (!routes_of.empty() && !routes_of[st].empty()) {
      x += "<Betriebsstellenfahrwege>\n";
      for (auto const ri : routes_of[st]) x += route_xml(routes[ri], r);
      x += "</Betriebsstellenfahrwege>\n";
    }
    return x + "</Spurplanbetriebsstelle>\n";
  }

  static std::vector<char const*> const& attribute_names() {
    static std::vector<char const*> const v = {
        "DurchfahrtOhneHaltMoeglich", "Elektrifiziert", "Falschfahrt", "Gleiswechselbetrieb", "Stumpfgleis",
        "AusDurchfahrt40", "HaltImmerMoeglich", "AutomatischErzeugt", "UmleitungStreckenwechsel",
        "HerausDurchgehendesHauptgleis", "HineinDurchgehendesHauptgleis"};
    return v;
  }

  // any of the ids under which the element of a state is known
  std::uint64_t spl_ref(int s, rng& r) const {
    auto const& st = states[s];
    if (st.what == 0) return elems[st.a].ports[r.below(elems[st.a].ports.size())].id;
    return sections[st.a].mids[st.b].id;
  }

  std::string route_xml(route const& rt, rng& r) const {
    std::string x = "<Betriebsstellenfahrweg><Name>" + rt.name + "</Name>" + ref("Anfang", rt.start) + ref("Ende", rt.end);
    if (rt.publish_only) x += "<nurVeroeffentlichung/>";
    auto at = [&](int pos) { return xml_id(rt.states[pos]); };
    if (rt.checkpoint >= 0) x += ref("Fahrzeitmesspunkt", at(rt.checkpoint));
    if (rt.passenger >= 0) x += ref("Reisezughalt", at(rt.passenger));
    if (rt.freight >= 0) x += ref("Gueterzughalt", at(rt.freight));
    if (!rt.omitted.empty()) {
      x += "<EntfallendeKnoten>";
      std::vector<int> v(rt.omitted.begin(), rt.omitted.end());
      r.shuffle(v);
      for (auto const p : v) {
        auto const& st = states[rt.states[p]];
        x += "<EntfallenderKnoten Typ=\"" + sections[st.a].mids[st.b].tag() + "\" ID=\"" + q(at(p)) + "\"/>";
      }
      x += "</EntfallendeKnoten>";
    }
    if (!rt.attributes.empty()) {
      x += "<Attribute>";
      for (auto const a : rt.attributes) x += std::string("<") + attribute_names()[a] + "/>";
      x += "</Attribute>";
    }
    if (!rt.course.empty()) {
      x += "<Verlauf>";
      for (auto const b : rt.course) x += b ? (r.chance(50) ? "<Abzweig/>" : "<AbzweigLinks/>") : "<Stamm/>";
      x += "</Verlauf>";
    }
    if (!rt.spls.empty()) {
      x += "<GeschwBeschraenkungen>";
      std::vector<std::pair<int, std::pair<speed_spec, int>>> v;
      for (auto const& [p, list] : rt.spls) {
        for (auto const& sp : list) v.push_back({p, sp});
      }
      r.shuffle(v);
      for (auto const& [p, sp] : v) {
        auto const tag = sp.second == 0 ? "GeschwBeschraenkung" : "GeschwBeschraenkungSpeziell";
        x += std::string("<") + tag + "><Knoten Typ=\"X\" ID=\"" + q(spl_ref(rt.states[p], r)) + "\"/>" + spl_xml(sp.first) +
             "</" + tag + ">";
      }
      if (r.chance(10)) {
        x += "<GeschwBeschraenkung><Knoten Typ=\"Warnfeld\" ID=\"1\"/>" + spl_xml({}) + "</GeschwBeschraenkung>";
      }
      x += "</GeschwBeschraenkungen>";
    }
    return x + "</Betriebsstellenfahrweg>\n";
  }

  // a value in tenths, with a decimal comma or point where there are decimals
  static std::string tenths(int v) {
    if (v % 10 == 0) return std::to_string(v / 10) + (v % 20 == 0 ? "" : ",0");
    return std::to_string(v / 10) + (v % 3 == 0 ? "." : ",") + std::to_string(v % 10);
  }

  static void write(std::filesystem::path const& p, std::string const& s) {
    auto f = std::fopen(p.c_str(), "wb");
    if (f == nullptr) std::abort();
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
  }

  std::vector<std::string> core_extra;  // rolling stock and the like, each at most once in a file

  void save(std::filesystem::path const& dir, rng& r) const {
    std::filesystem::create_directories(dir);
    std::vector<std::string> names;
    static char const* head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    for (std::size_t i = 0; i < files.size(); ++i) {
      std::string x = head + std::string("<XmlIssDaten><Spurplanbetriebsstellen>\n");
      for (auto const s : files[i]) x += station_xml(s, r);
      x += "</Spurplanbetriebsstellen></XmlIssDaten>\n";
      names.push_back("Spurplanbetriebsstellen_" + std::to_string(i) + ".xml");
      write(dir / names.back(), x);
    }
    {
      // the core data may come in one file or in several, in any order
      auto const defaults =
          std::string("<Standardwerte><Streckenklasse>D4</Streckenklasse><Fahrstrassenbildezeit>") +
          tenths(default_form_time) + "</Fahrstrassenbildezeit><BremswegArt>" + tenths(default_brake_path) +
          "</BremswegArt><ZulaessigeOrtsfesteGeschwindigkeit>" + std::to_string(default_kmh) +
          "</ZulaessigeOrtsfesteGeschwindigkeit></Standardwerte>";
      auto parts = core_extra;
      if (parts.empty() || r.chance(50)) {
        parts.push_back(defaults);
      } else {
        auto& p = r.pick(parts);
        p = r.chance(50) ? p + defaults : defaults + p;
      }
      r.shuffle(parts);
      for (std::size_t i = 0; i < parts.size(); ++i) {
        names.push_back("Stammdaten" + (i == 0 ? "" : "_" + std::to_string(i)) + ".xml");
        write(dir / names.back(), head + ("<XmlIssDaten><Stammdaten>" + parts[i]) + "</Stammdaten></XmlIssDaten>\n");
      }
    }
    {
      auto const in_files = [&](std::string const& name, std::string const& open, std::string const& close,
                                std::vector<std::string> const& entries) {
        auto const k = r.chance(60) ? 1 : 2 + r.below(2);
        std::size_t next = 0;
        for (std::size_t i = 0; i < k; ++i) {
          std::string x = head + ("<XmlIssDaten><Ordnungsrahmen>" + open);
          auto const end = i + 1 == k ? entries.size() : next + r.below(entries.size() - next + 1);
          for (; next < end; ++next) x += entries[next];
          names.push_back(name + (i == 0 ? "" : "_" + std::to_string(i)) + ".xml");
          write(dir / names.back(), x + close + "</Ordnungsrahmen></XmlIssDaten>\n");
        }
      };
      std::vector<std::string> entries;
      for (auto const& s : stations) {
        if (s.has_name) {
          entries.push_back("<Betriebsstelle><DS100>" + s.ds100 + "</DS100><Name>" + s.name + "</Name></Betriebsstelle>\n");
        }
      }
      in_files("Ordnungsrahmen_ORBtrst", "<Betriebsstellen>\n", "</Betriebsstellen>", entries);
      entries.clear();
      for (auto const& l : lines) {
        std::string x = "<Strecke><Nr>" + std::to_string(l.id) + "</Nr><Streckenabschnitte>";
        for (auto const& s : l.segments) {
          x += "<Streckenabschnitt><KilometrierungVon>" + km_text(s.from, r) + "</KilometrierungVon><KilometrierungBis>" +
               km_text(s.to, r) + "</KilometrierungBis><Art Schluessel=\"" + std::to_string(s.key) +
               "\"/></Streckenabschnitt>";
        }
        entries.push_back(x + "</Streckenabschnitte></Strecke>\n");
      }
      in_files("Ordnungsrahmen_ORStr", "<Strecken>\n", "</Strecken>", entries);
    }
    // only the order of the station files is that of the numbering
    std::stable_partition(names.begin(), names.end(), [&](auto const& n) { return !n.starts_with("Spur") && r.chance(50); });
    std::string x = head + std::string("<XmlIssIndex><SpurplandatenVersion><Name>v") + std::to_string(version) +
                    "</Name><Nummer>" + std::to_string(version) + "</Nummer></SpurplandatenVersion><Dateien>\n";
    for (auto const& n : names) x += "<Datei><Name>" + n + "</Name></Datei>\n";
    x += "</Dateien></XmlIssIndex>\n";
    write(dir / "Index.xml", x);
  }
};

}  // namespace mdl
