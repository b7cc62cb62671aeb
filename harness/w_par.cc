// C02: what is loaded and computed does not depend on the number of threads.
#include "tt.h"

#include <fstream>
#include <thread>

#include "soro/server/modules/tiles/import/import.h"
#include "soro/server/modules/tiles/osm_export/osm_export.h"
#include "soro/simulation/ordering/ordering_graph.h"

namespace soro::server {
void import_tiles(import_settings const&) {}
}  // namespace soro::server

namespace {
unsigned processors = 1;
}

// as many as the case asks for; 0 where the number is not known
unsigned int std::thread::hardware_concurrency() noexcept { return processors; }

using namespace mdl;
namespace inf = soro::infra;
namespace tt = soro::tt;
namespace sim = soro::simulation;

namespace {
struct par_world : tt_world {
  bool elements{true};

  void tune(vh::ctx& c, options& o) override {
    tt_world::tune(c, o);
    o.wide = c.r.chance(40);
    if (o.wide) {
      o.mids = static_cast<int>(c.r.in(3, 10));
      o.signal_weight = static_cast<unsigned>(c.r.in(20, 50));
    }
  }

  void before_load(vh::ctx& c) override {
    tt_world::before_load(c);
    opts.exclusions_ = true;
    opts.exclusion_elements_ = true;
    opts.exclusion_graph_ = true;
    std::ofstream f(dir / "exclusion_sets");
    auto const k = 1 + c.r.below(8);
    auto const all = lv->all.size();
    for (std::uint64_t s = 0; s < k && all > 0; ++s) {
      std::set<unsigned> ids;
      auto const sz = 1 + c.r.below(std::min<std::size_t>(all, 20));
      for (std::uint64_t q = 0; q < sz; ++q) ids.insert(static_cast<unsigned>(c.r.below(all)));
      bool first = true;
      for (auto const i : ids) {
        f << (first ? "" : " ") << i;
        first = false;
      }
      f << "\n";
    }
  }
};

using parts = std::map<std::string, std::string>;

template <typename T>
void list(std::ostream& o, T const& v) {
  for (auto const& x : v) o << static_cast<unsigned long>(x) << " ";
  o << "\n";
}

void of_infra(parts& p, inf::infrastructure_t const& i) {
  std::ostringstream g, s, q, closed, graph, sets;
  for (auto const& n : i.graph_.nodes_) {
    g << n->id_ << " " << n->element_->id() << " " << (n->next_node_ ? n->next_node_->id_ : -1U) << " "
      << (n->branch_node_ ? n->branch_node_->id_ : -1U) << "\n";
  }
  for (auto const& r : i.station_routes_) {
    s << r->id_ << " " << r->name_.c_str() << ":";
    for (auto const& n : r->nodes()) s << " " << n->id_;
    s << "\n";
  }
  for (auto const& r : i.interlocking_.routes_) {
    q << r.id_ << " " << r.start_offset_ << " " << r.end_offset_ << ": ";
    list(q, r.station_routes_);
  }
  for (auto const& e : i.exclusion_.exclusion_elements_.closed_) list(closed, e);
  for (auto const& e : i.exclusion_.exclusion_elements_.open_) list(closed, e);
  for (auto const& e : i.exclusion_.exclusion_graph_.nodes_) list(graph, e);
  for (auto const& e : i.exclusion_.exclusion_sets_) list(sets, e);
  for (auto const& e : i.exclusion_.irs_to_exclusion_sets_) list(sets, e);
  p["nodes"] = g.str();
  p["station-routes"] = s.str();
  p["interlocking-routes"] = q.str();
  p["exclusion-elements"] = closed.str();
  p["exclusion-graph"] = graph.str();
  p["exclusion-sets"] = sets.str();
}

void of_timetable(parts& p, tt::base_timetable const& t) {
  std::ostringstream o;
  o << t.interval_.start_.time_since_epoch().count() << " " << t.interval_.end_.time_since_epoch().count() << "\n";
  for (auto const& x : t.trains_) {
    o << x.id_ << " " << x.number_.main_ << " " << ": ";
    list(o, x.path_);
    for (auto const& d : x.service_days_.get_set_days()) o << d.time_since_epoch().count() << " ";
    for (auto const& s : x.sequence_points_) {
      o << " | " << s.station_route_ << " " << s.arrival_.count() << " "
        << s.departure_.count() << " " << s.min_stop_time_.count();
    }
    o << "\n";
  }
  p["trains"] = o.str();
}

void of_orders(parts& p, sim::ordering_graph const& g) {
  std::ostringstream o;
  for (auto const& n : g.nodes_) {
    o << n.id_ << " " << n.ir_id_ << " " << n.train_id_ << ": ";
    list(o, n.in_);
    list(o, n.out_);
  }
  p["ordering"] = o.str();
}
}  // namespace

CASES(C02) {
  auto& r = c.r;
  setenv("SHIM_THREADS", "4", 1);
  bool timetable = r.chance(70);
  std::unique_ptr<par_world> made;
  for (int attempt = 0; attempt < (timetable ? 6 : 1); ++attempt) {
    made = std::make_unique<par_world>();
    if (!made->prepare(c)) return;
    if (!timetable) break;
    if (!made->map(c) || made->i().interlocking_.routes_.size() != made->lv->all.size()) continue;
    made->random_timetable(c, false, 12);
    if (!made->specs.empty()) break;
  }
  auto& w = *made;
  timetable = timetable && !w.specs.empty();
  auto const once = [&](unsigned threads) {
    setenv("SHIM_THREADS", std::to_string(threads).c_str(), 1);
    processors = threads == 1 || r.chance(70) ? threads : static_cast<unsigned>(r.in(0, 20));
    if (processors == 0) c.stat("processors_unknown");
    parts p;
    w.load();
    of_infra(p, w.i());
    std::ostringstream osm;
    soro::server::osm_export::export_to_osm(w.i()).save(osm);
    p["osm"] = osm.str();
    if (!timetable) return p;
    try {
      tt::timetable_options o;
      o.timetable_path_ = w.tt_dir;
      tt::timetable const tab{o, *w.infra};
      of_timetable(p, *tab);
      c.stat("trains", tab->trains_.size());
      sim::ordering_graph const g{*w.infra, tab};
      of_orders(p, g);
      c.stat("ordering_nodes", g.nodes_.size());
    } catch (std::exception const& e) {
      p["refused"] = e.what();
      c.stat("refused");
    }
    return p;
  };
  w.opts.layout_ = true;
  processors = 1;
  auto const alone = once(1);
  c.stat("loads");
  std::size_t shared = 0;
  for (auto const& x : w.i().exclusion_.exclusion_graph_.nodes_) {
    for (auto const q : x) shared += q < w.lv->all.size();
  }
  c.stat("exclusions", shared);
  c.sig(std::hash<std::string>{}(alone.at("interlocking-routes") + alone.at("nodes")));
  auto const rounds = c.thorough_ ? 4 : 2;
  for (int k = 0; k < rounds; ++k) {
    auto const n = static_cast<unsigned>(r.in(2, 8));
    auto const together = once(n);
    c.stat("loads");
    c.stat("threads", n);
    for (auto const& [name, x] : alone) {
      auto const it = together.find(name);
      if (!c.check(it != together.end(), ("threads-" + name).c_str(), "missing with ", n, " threads")) continue;
      if (it->second == x) {
        c.check(true, ("threads-" + name).c_str());
        continue;
      }
      std::istringstream a(x), b(it->second);
      std::string la, lb;
      while (std::getline(a, la) && std::getline(b, lb) && la == lb) {
      }
      c.check(false, ("threads-" + name).c_str(), n, " threads: ", lb, " alone: ", la);
    }
    c.eq(together.size(), alone.size(), "threads-parts", n);
  }
  if (w.i().interlocking_.routes_.size() > 1) c.nontrivial();
}
