// A loaded network together with its expected interlocking routes.
#pragma once

#include "lock.h"

namespace mdl {

struct lock_world : world {
  std::unique_ptr<lock_view> lv;

  virtual void before_load(vh::ctx&) {}
  virtual void tune(vh::ctx&, options&) {}

  // false: not a case
  bool prepare(vh::ctx& c) {
    for (int attempt = 0; attempt < 6; ++attempt) {
      n = network{};
      auto o = route_options(c);
      o.max_routes = static_cast<unsigned>(c.r.in(1, 10));
      o.signal_weight = static_cast<unsigned>(c.r.in(0, 25));
      o.stations = static_cast<int>(c.r.in(1, 5));
      tune(c, o);
      n.build(c.r, o);
      lv = std::make_unique<lock_view>(n, o.wide ? 800 : c.thorough_ ? 20000 : 4000);
      if (lv->too_many) continue;
      dir = fresh_dir();
      n.save(dir, c.r);
      opts.interlocking_ = true;
      opts.exclusions_ = false;
      before_load(c);
      opts.layout_ = false;
      load();
      c.stat("interlocking_routes", lv->all.size());
      if (lv->all.size() > 3) c.nontrivial();
      for (auto const& r : lv->all) {
        c.sig(r.start * 31 + r.end * 7 + r.srs.size());
        c.stat("routes_over_stations", r.srs.size() > 1);
        c.stat("routes_over_three", r.srs.size() > 2);
      }
      if (c.case_ < 400) {
        std::ostringstream s;
        s << lv->v.r.size() << " station routes, " << lv->all.size() << " interlocking routes";
        c.note(s.str());
      }
      return true;
    }
    return false;
  }
  lock_route of(soro::infra::interlocking_route const& r) const {
    return {r.start_offset_, r.end_offset_, std::vector<int>(r.station_routes_.begin(), r.station_routes_.end())};
  }
  static std::string show(lock_route const& r) {
    std::ostringstream o;
    o << "[" << r.start << ".." << r.end << ") of";
    for (auto const s : r.srs) o << " " << s;
    return o.str();
  }
};

}  // namespace mdl
