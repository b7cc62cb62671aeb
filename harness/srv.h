// A running server over generated networks and timetables, asked through its
// request handler.
#pragma once

#include <fstream>
#include <iostream>

#include "tt.h"

#include "pugixml.hpp"
#include "rapidjson/document.h"

#include "soro/server/modules/tiles/import/import.h"
#include "soro/server/soro_server.h"

namespace mdl {

namespace srv = soro::server;

struct srv_world : tt_world {
  std::vector<std::vector<unsigned>> sets;
  std::string name;
  bool small{true}, crowded{false};
  struct table {
    std::string name;
    std::unique_ptr<soro::tt::timetable> tt;
  };
  std::vector<table> tables;

  ~srv_world() override { tables.clear(); }

  void tune(vh::ctx& c, options& o) override {
    tt_world::tune(c, o);
    o.layout = true;
    if (!small) {
      o.wide = true;
      o.signal_weight = static_cast<unsigned>(c.r.in(20, 50));
      return;
    }
    o.wide = c.r.chance(50);
    o.stations = static_cast<int>(c.r.in(1, 4));
    o.mids = static_cast<int>(c.r.in(2, 9));
    o.signal_weight = static_cast<unsigned>(c.r.in(15, 50));
    o.max_routes = static_cast<unsigned>(c.r.in(3, 9));
  }

  void before_load(vh::ctx& c) override {
    // the nodes of an element lie at one place
    int const far = crowded ? 1 : c.r.chance(20) ? 3 : c.r.chance(50) ? 900 : 20000;
    for (auto& e : n.elems) {
      auto const x = static_cast<int>(c.r.below(static_cast<std::uint64_t>(far))), y = static_cast<int>(c.r.below(static_cast<std::uint64_t>(far)));
      for (auto& p : e.ports) p.x = x, p.y = y;
    }
    tt_world::before_load(c);
    std::ofstream f(dir / "exclusion_sets");
    auto const k = c.r.below(8);
    for (std::uint64_t s = 0; s < k && !lv->all.empty(); ++s) {
      std::set<unsigned> ids;
      auto const all = lv->all.size();
      auto const sz = 1 + c.r.below(std::min<std::size_t>(all, c.r.chance(50) ? 30 : 6));
      for (std::uint64_t q = 0; q < sz; ++q) ids.insert(static_cast<unsigned>(c.r.below(all)));
      sets.emplace_back(ids.begin(), ids.end());
      bool first = true;
      for (auto const i : ids) {
        f << (first ? "" : " ") << i;
        first = false;
      }
      f << "\n";
    }
  }
};

struct reply {
  bool answered{false};
  int status{0};
  std::string body, error;
  rapidjson::Document json;
  bool parsed{false};
};

struct server_case {
  std::filesystem::path root;
  std::vector<std::unique_ptr<srv_world>> parts;
  srv::server_settings settings;
  std::unique_ptr<srv::soro_server> server;

  ~server_case() {
    server.reset();
    parts.clear();
    if (!root.empty()) {
      std::error_code ec;
      std::filesystem::remove_all(root, ec);
    }
  }

  static std::string random_name(rng& r) {
    static char const abc[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
    std::string s;
    auto const k = 1 + r.below(9);
    for (std::uint64_t i = 0; i < k; ++i) s += abc[r.below(sizeof(abc) - 1)];
    return s;
  }

  // false: not a case
  bool prepare(vh::ctx& c, unsigned max_parts, bool timetables) {
    static int cnt = 0;
    root = std::filesystem::path{vh::scratch_dir} / ("srv" + std::to_string(cnt++));
    auto const infra_dir = root / "infra", tt_dir = root / "tt", res = root / "res";
    for (auto const& d : {infra_dir, tt_dir, res / "misc", res / "profile", res / "infrastructure", res / "timetable",
                          res / "tiles", res / "osm", res / "tmp"}) {
      std::filesystem::create_directories(d);
    }
    settings.server_resource_dir_ = std::filesystem::path(res);
    settings.infrastructure_sources_ = std::filesystem::path(infra_dir);
    settings.timetable_sources_ = std::filesystem::path(tt_dir);
    settings.test_ = true;
    settings.regenerate_ = c.r.chance(50);

    std::set<std::string> names, versions;
    auto const fresh_name = [&] {
      std::string s;
      do {
        s = random_name(c.r);
      } while (!names.insert(s).second);
      return s;
    };
    auto const k = 1 + c.r.below(max_parts);
    std::ofstream coords(settings.coord_file());
    coords << "ds100,lat,lon\n";
    std::set<std::string> placed;
    // sometimes everything lies at one place
    bool const crowded = c.r.chance(15);
    double const lat0 = 47 + c.r.real(0, 7), lon0 = 7 + c.r.real(0, 7);
    for (std::uint64_t q = 0; q < k; ++q) {
      auto w = std::make_unique<srv_world>();
      w->small = !timetables;
      w->crowded = crowded;
      if (!w->prepare(c)) continue;
      if (!versions.insert(std::to_string(w->n.version)).second) continue;
      for (auto const& s : w->n.stations) {
        if (c.r.chance(60) && placed.insert(s.ds100).second) {
          auto const lat = crowded ? lat0 : 47 + static_cast<double>(c.r.below(7000)) / 1000;
          auto const lon = crowded ? lon0 : 7 + static_cast<double>(c.r.below(7000)) / 1000;
          coords << s.ds100 << "," << lat << "," << lon << "\n";
        }
      }
      w->name = fresh_name();
      w->infra.reset();
      std::filesystem::rename(w->dir, infra_dir / w->name);
      w->dir = infra_dir / w->name;
      parts.push_back(std::move(w));
    }
    coords.close();
    if (parts.empty()) return false;
    if (c.r.chance(20)) network::write(infra_dir / fresh_name(), "no infrastructure\n");
    if (c.r.chance(20)) network::write(tt_dir / fresh_name(), "no timetable\n");
    if (c.r.chance(20)) std::filesystem::create_directories(tt_dir / fresh_name());
    for (auto& w : parts) {
      w->opts = soro::infra::make_infra_opts(w->dir, settings.coord_file());
      w->load();
      if (!timetables || !w->map(c) || w->i().interlocking_.routes_.size() != w->lv->all.size()) continue;
      auto const t = c.r.chance(85) ? 1 + c.r.below(2) : 0;
      for (std::uint64_t q = 0; q < t; ++q) {
        w->specs.clear();
        w->groups.clear();
        w->files.clear();
        w->random_timetable(c, true, 5);
        if (w->specs.empty()) continue;
        auto const name = fresh_name();
        std::filesystem::rename(w->tt_dir, tt_dir / name);
        soro::tt::timetable_options o;
        o.timetable_path_ = tt_dir / name;
        w->tables.push_back({name, std::make_unique<soro::tt::timetable>(o, *w->infra)});
      }
    }
    return true;
  }

  void start() { server = std::make_unique<srv::soro_server>(settings); }

  // hands the requests to the running server
  std::vector<reply> ask(std::vector<std::string> const& targets, std::string const& method = "GET") {
    std::vector<reply> out(targets.size());
    net::web_server::session() = [&](net::web_server::http_req_cb_t const& cb) {
      for (std::size_t k = 0; k < targets.size(); ++k) {
        net::web_server::http_req_t req;
        req.method_string(method);
        req.target(targets[k]);
        req.version(11);
        auto& r = out[k];
        try {
          cb(req, [&](net::web_server::http_res_t&& res) {
            std::visit(
                [&](auto& x) {
                  r.status = static_cast<int>(x.result_int());
                  if constexpr (std::is_same_v<std::decay_t<decltype(x)>, net::web_server::string_res_t>) r.body = x.body();
                },
                res);
            r.answered = true;
          }, false);
        } catch (std::exception const& e) {
          r.error = e.what();
        }
      }
    };
    server->run(settings);
    net::web_server::session() = nullptr;
    for (auto& r : out) {
      if (r.status != 200) continue;
      r.json.Parse<rapidjson::kParseFullPrecisionFlag>(r.body.c_str());
      r.parsed = !r.json.HasParseError();
    }
    return out;
  }
  reply ask_one(std::string const& target) { return std::move(ask({target}).front()); }
};

}  // namespace mdl

namespace soro::server {
// what the tile library is told to import
inline std::vector<import_settings>& imports() {
  static std::vector<import_settings> v;
  return v;
}
}  // namespace soro::server
