// S03: the ordering graph of a timetable.
#include <fstream>

#include "tt.h"

#include "soro/runtime/runtime.h"
#include "soro/simulation/ordering/ordering_graph.h"

using namespace mdl;
namespace inf = soro::infra;
namespace tt = soro::tt;
namespace rt = soro::runtime;
namespace sim = soro::simulation;

namespace {

struct ord_world : tt_world {
  std::vector<std::vector<unsigned>> sets;

  void tune(vh::ctx& c, options& o) override {
    tt_world::tune(c, o);
    o.wide = true;
    o.mids = static_cast<int>(c.r.in(3, 10));
    o.signal_weight = static_cast<unsigned>(c.r.in(20, 50));
  }

  void before_load(vh::ctx& c) override {
    tt_world::before_load(c);
    opts.exclusions_ = true;
    opts.exclusion_elements_ = c.r.chance(30);
    opts.exclusion_graph_ = c.r.chance(30);
    std::ofstream f(dir / "exclusion_sets");
    auto const k = 1 + c.r.below(10);
    for (std::uint64_t s = 0; s < k && !lv->all.empty(); ++s) {
      std::set<unsigned> ids;
      auto const all = lv->all.size();
      auto const sz = 1 + c.r.below(std::min<std::size_t>(all, c.r.chance(50) ? 30 : 6));
      for (std::uint64_t q = 0; q < sz; ++q) ids.insert(static_cast<unsigned>(c.r.below(all)));
      sets.emplace_back(ids.begin(), ids.end());
      bool first = true;
      for (auto const i : ids) {
        f << (first ? "" : " ") << i;
        first = false;
      }
      f << "\n";
    }
  }
};

struct usage {
  std::int64_t from;
  unsigned node;
};

}  // namespace

CASES(S03) {
  ord_world w;
  if (!w.prepare(c) || !w.map(c)) return;
  auto const& irs = w.i().interlocking_.routes_;
  if (irs.size() != w.lv->all.size()) return;
  w.random_timetable(c, true, c.thorough_ ? 16 : 6);
  if (w.specs.empty()) return;
  tt::timetable_options topts;
  topts.timetable_path_ = w.tt_dir;
  auto const t = std::make_unique<tt::timetable>(topts, *w.infra);
  auto const& trains = (*t)->trains_;
  if (trains.empty()) return;

  // what to include
  sim::ordering_graph::filter filter;
  std::set<tt::train::id> wanted;
  if (c.r.chance(40)) {
    for (auto const& x : trains) {
      if (c.r.chance(60)) wanted.insert(x.id_);
    }
    filter.trains_.assign(wanted.begin(), wanted.end());
    c.r.shuffle(filter.trains_);
  }
  std::int64_t lo = 0, hi = std::numeric_limits<std::uint32_t>::max();
  bool const interval = c.r.chance(50);
  if (interval) {
    std::int64_t first = 1LL << 40, last = 0;
    for (auto const& x : trains) {
      if (x.trip_count() == 0) continue;
      first = std::min<std::int64_t>(first, x.first_absolute_departure().time_since_epoch().count());
      last = std::max<std::int64_t>(last, x.last_absolute_arrival().time_since_epoch().count());
    }
    if (last == 0) first = last = 1600000000;
    lo = c.r.in(std::max<std::int64_t>(0, first - 86400), last);
    hi = c.r.in(lo, last + 86400);
    filter.interval_.start_ = soro::absolute_time{soro::absolute_time::duration{static_cast<std::uint32_t>(lo)}};
    filter.interval_.end_ = soro::absolute_time{soro::absolute_time::duration{static_cast<std::uint32_t>(hi)}};
  }
  std::unique_ptr<sim::ordering_graph> og;
  if (!interval && wanted.empty() && c.r.chance(50)) {
    og = std::make_unique<sim::ordering_graph>(*w.infra, *t);
  } else {
    og = std::make_unique<sim::ordering_graph>(*w.infra, *t, filter);
  }

  // one node for every route of every trip
  unsigned nodes = 0;
  std::size_t trips = 0, unmeasured = 0;
  std::vector<std::vector<usage>> order(w.sets.size());
  std::sort(w.sets.begin(), w.sets.end());
  std::vector<std::set<unsigned>> out;
  for (auto const& x : trains) {
    if (!wanted.empty() && wanted.count(x.id_) == 0) continue;
    auto const& spec = w.specs[x.number_.main_ - 100];
    std::vector<tt::bitfield::anchor_time> anchors;
    std::vector<rt::timestamp> times;
    {
      auto const ts = rt::runtime_calculation(x, *w.infra, {type::MAIN_SIGNAL});
      times.assign(ts.times_.begin(), ts.times_.end());
    }
    if (times.empty()) {
      ++unmeasured;
      c.eq(x.path_.size(), std::size_t{1}, "ordering-signals", "a path of several routes passes no signal");
      for (auto const d : spec.days) {
        tt::train::trip const trip{.train_id_ = x.id_, .anchor_ = tt::bitfield::anchor_time{date::days{d}}};
        c.check(og->trip_to_nodes_.count(trip) == 0, "ordering-trip-without-signal", "");
      }
      continue;
    }
    if (!c.eq(times.size() + 1, x.path_.size(), "ordering-signals", "")) return;
    auto const dep = secs(x.first_departure()), arr = secs(x.last_arrival());
    for (auto const d : spec.days) {
      tt::train::trip const trip{.train_id_ = x.id_, .anchor_ = tt::bitfield::anchor_time{date::days{d}}};
      auto const it = og->trip_to_nodes_.find(trip);
      bool const in = d * 86400 + dep < hi && d * 86400 + arr >= lo;
      bool const on_edge = d * 86400 + dep == hi || d * 86400 + arr == lo || d * 86400 + arr < lo || arr < dep;
      if (interval && (on_edge || (d * 86400 + dep < lo && in))) {
        // which trips reach into an interval is judged by T02
        if (it == og->trip_to_nodes_.end()) continue;
      } else {
        bool const has = it != og->trip_to_nodes_.end();
        if (!c.check(has == in, "ordering-trips", "day ", d, " departs ", dep, " arrives ", arr, " interval ", lo, "-", hi)) return;
        if (!has) continue;
      }
      ++trips;
      auto const [a, z] = it->second;
      if (!c.check(z - a == x.path_.size() && z <= og->nodes_.size(), "ordering-trip-nodes", a, " ", z, " of ", og->nodes_.size(), " path ",
                   x.path_.size())) {
        return;
      }
      auto const span = og->trip_nodes(trip);
      c.check(span.data() == &og->nodes_[a] && span.size() == z - a, "ordering-trip-span", "");
      nodes += z - a;
      if (out.size() < og->nodes_.size()) out.resize(og->nodes_.size());
      for (unsigned k = 0; k < z - a; ++k) {
        auto const& node = og->nodes_[a + k];
        c.check(node.id_ == a + k, "ordering-node-id", node.id_, " at ", a + k);
        c.check(node.train_id_ == x.id_, "ordering-node-train", "");
        c.check(node.ir_id_ == x.path_[k], "ordering-node-route", "");
        if (k + 1 < z - a) {
          out[a + k].insert(a + k + 1);
          c.check(&node.next(*og) == &og->nodes_[a + k + 1], "ordering-next", "");
        }
        auto const from = d * 86400 + (k == 0 ? dep : secs(times[k - 1].arrival_));
        for (std::size_t s = 0; s < w.sets.size(); ++s) {
          if (std::binary_search(w.sets[s].begin(), w.sets[s].end(), static_cast<unsigned>(x.path_[k]))) order[s].push_back({from, a + k});
        }
      }
    }
  }
  if (!c.eq(og->nodes_.size(), static_cast<std::size_t>(nodes), "ordering-node-count", "")) return;
  if (!c.eq(og->trip_to_nodes_.size(), trips, "ordering-trip-count", "")) return;
  c.stat("trips", trips);
  c.stat("nodes", nodes);
  c.stat("without_signal", unmeasured);
  if (trips > 1) c.nontrivial();
  c.sig(trips * 1000003 + nodes * 101 + w.sets.size());

  // edges: users of an exclusion set in order of their entry, without the transitive ones
  bool ties = false;
  for (auto& o : order) {
    std::stable_sort(o.begin(), o.end(), [](usage const& a, usage const& b) { return a.from < b.from; });
    for (std::size_t k = 0; k + 1 < o.size(); ++k) {
      ties = ties || o[k].from == o[k + 1].from;
      out[o[k].node].insert(o[k + 1].node);
    }
  }
  // mirrored in any case
  std::set<std::pair<unsigned, unsigned>> fwd, bwd;
  std::size_t fwd_count = 0, bwd_count = 0;
  for (auto const& node : og->nodes_) {
    for (auto const q : node.out_) {
      if (!c.check(q < og->nodes_.size(), "ordering-edge-target", q)) return;
      fwd.insert({node.id_, q});
      ++fwd_count;
    }
    for (auto const q : node.in_) {
      bwd.insert({q, node.id_});
      ++bwd_count;
    }
  }
  c.check(fwd == bwd && fwd.size() == fwd_count && bwd.size() == bwd_count, "ordering-mirrored", fwd_count, " ", bwd_count);
  if (ties) {
    c.stat("ties");
    return;
  }
  std::vector<std::vector<bool>> reach(nodes);
  if (nodes > 1500) return;
  // entries ascend along every edge, so going by time is a topological order
  std::vector<std::vector<unsigned>> todo(nodes);
  for (unsigned a = 0; a < nodes; ++a) {
    reach[a].assign(nodes, false);
    std::vector<unsigned> stack(out[a].begin(), out[a].end());
    while (!stack.empty()) {
      auto const b = stack.back();
      stack.pop_back();
      if (reach[a][b]) continue;
      reach[a][b] = true;
      for (auto const q : out[b]) stack.push_back(q);
    }
    if (reach[a][a]) {
      c.stat("cyclic");
      return;
    }
  }
  std::size_t edges = 0, dropped = 0;
  for (unsigned a = 0; a < nodes; ++a) {
    std::set<unsigned> want;
    for (auto const b : out[a]) {
      bool transitive = false;
      for (auto const q : out[a]) transitive = transitive || (q != b && reach[q][b]);
      if (!transitive) want.insert(b);
      transitive ? ++dropped : ++edges;
    }
    std::set<unsigned> const got(og->nodes_[a].out_.begin(), og->nodes_[a].out_.end());
    std::ostringstream o;
    o << "node " << a << " expected";
    for (auto const q : want) o << " " << q;
    o << " got";
    for (auto const q : got) o << " " << q;
    c.check(got == want, "ordering-edges", o.str());
  }
  c.stat("edges", edges);
  c.stat("dropped_edges", dropped);
}
