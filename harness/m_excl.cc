// I10: which interlocking routes exclude each other.
#include "lockw.h"

#include <fstream>

#include "soro/infrastructure/exclusion/get_exclusion.h"

using namespace mdl;
namespace inf = soro::infra;

namespace {
struct excl_world : lock_world {
  std::vector<std::vector<unsigned>> sets;  // sorted
  bool with_sets{false}, elements{false}, graph{false};

  void before_load(vh::ctx& c) override {
    opts.exclusions_ = true;
    elements = c.r.chance(95);
    graph = c.r.chance(95);
    opts.exclusion_elements_ = elements;
    opts.exclusion_graph_ = graph;
    sets.clear();
    with_sets = c.r.chance(70) && !lv->all.empty();
    if (!with_sets) return;
    std::ofstream f(dir / "exclusion_sets");
    auto const k = c.r.below(12);
    for (std::uint64_t s = 0; s < k; ++s) {
      std::set<unsigned> ids;
      auto const sz = 1 + c.r.below(c.r.chance(20) ? 40 : 5);
      for (std::uint64_t q = 0; q < sz; ++q) ids.insert(static_cast<unsigned>(c.r.below(lv->all.size())));
      std::vector<unsigned> v(ids.begin(), ids.end());
      auto shuffled = v;
      c.r.shuffle(shuffled);
      for (std::size_t q = 0; q < shuffled.size(); ++q) f << (q == 0 ? "" : " ") << shuffled[q];
      if (s + 1 != k || c.r.chance(70)) f << "\n";
      sets.push_back(v);
    }
    std::sort(sets.begin(), sets.end());
  }
};

bool valid_end(type t) {
  return t == type::MAIN_SIGNAL || t == type::HALT || t == type::BORDER || t == type::BUMPER || t == type::TRACK_END;
}
}  // namespace

CASES(I10) {
  excl_world w;
  if (!w.prepare(c)) return;
  if (!w.map(c)) return;
  auto const& n = w.n;
  auto const& ex = w.i().exclusion_;
  auto const& irs = w.i().interlocking_.routes_;
  auto const count = irs.size();
  if (!c.eq(count, w.lv->all.size(), "excl-routes", "interlocking routes")) return;

  // the given sets and their inverse
  std::vector<std::vector<unsigned>> got_sets;
  for (auto const& s : ex.exclusion_sets_) got_sets.emplace_back(s.begin(), s.end());
  c.check(got_sets == w.sets, "excl-sets", "read ", got_sets.size(), " sets, written ", w.sets.size());
  std::vector<std::vector<unsigned>> of(count);
  for (unsigned s = 0; s < w.sets.size(); ++s) {
    for (auto const ir : w.sets[s]) of[ir].push_back(s);
  }
  c.eq(ex.irs_to_exclusion_sets_.size(), count, "excl-set-index", "routes");
  for (std::size_t k = 0; k < count && k < ex.irs_to_exclusion_sets_.size(); ++k) {
    auto const& g = ex.irs_to_exclusion_sets_[k];
    c.check(std::vector<unsigned>(g.begin(), g.end()) == of[k], "excl-set-index", "sets of route ", k);
  }
  if (!w.sets.empty()) c.stat("set_files");

  // the elements a route occupies, from its way through the sections
  std::vector<std::set<unsigned>> closed(count), open(count);
  std::vector<std::pair<int, int>> ends(count);
  for (std::size_t k = 0; k < count; ++k) {
    auto const r = w.of(irs[k]);
    std::vector<int> way;
    for (std::size_t q = 0; q < r.srs.size(); ++q) {
      auto const& st = w.lv->v.r[r.srs[q]]->states;
      auto const from = q == 0 ? r.start : 0;
      auto const to = q + 1 == r.srs.size() ? r.end : st.size();
      way.insert(way.end(), st.begin() + static_cast<long>(from), st.begin() + static_cast<long>(to));
    }
    ends[k] = {way.front(), way.back()};
    std::size_t sections = 0;
    for (std::size_t q = 0; q < way.size(); ++q) {
      auto const& st = n.states[way[q]];
      if (st.what == 0) continue;
      bool const enters = q == 0 || n.states[way[q - 1]].what == 0;
      if (!enters) continue;
      ++sections;
      auto last = q;
      while (last + 1 < way.size() && n.states[way[last + 1]].what != 0) ++last;
      // the part of the section between the ends of the way
      auto const order = w.section_order(st.a, st.c);
      auto const position = [&](int s) {
        auto const& x = n.states[s];
        for (std::size_t z = 0; z < order.size(); ++z) {
          if (x.what == 1 && order[z].what == 1 && order[z].a == x.b) return z;
          if (x.what == 2 && order[z].what == 2 && order[z].a == x.c) return z;
        }
        std::abort();
      };
      std::size_t const a = q == 0 ? position(way[q]) : 0;
      std::size_t const z = last + 1 == way.size() ? position(way[last]) : order.size() - 1;
      for (auto i = a; i <= z; ++i) {
        auto const& e = order[i];
        element::ptr p = nullptr;
        bool joins = false;
        if (e.what == 0) {
          p = w.elem[e.a];
          joins = n.elems[e.a].k == SWITCH || n.elems[e.a].k == CROSS;
        } else if (e.what == 1) {
          p = w.mid.at({st.a, e.a});
        } else {
          continue;
        }
        if (joins || valid_end(p->type())) closed[k].insert(p->id());
      }
    }
    if (sections == 1) c.stat("one_section");
    if (sections > 2) c.stat("many_sections");
    open[k] = closed[k];
    open[k].erase(w.element_of(way.front())->id());
    open[k].erase(w.element_of(way.back())->id());
  }
  auto const same = [&](auto const& got, std::vector<std::set<unsigned>> const& want, char const* key) {
    if (!c.eq(got.size(), want.size(), key, "routes")) return;
    for (std::size_t k = 0; k < want.size(); ++k) {
      std::vector<unsigned> const g(got[k].begin(), got[k].end());
      std::vector<unsigned> const v(want[k].begin(), want[k].end());
      std::ostringstream o;
      if (g != v) {
        o << "route " << k << " " << w.show(w.of(irs[k])) << " got";
        for (auto const x : g) o << " " << x;
        o << " expected";
        for (auto const x : v) o << " " << x;
      }
      c.check(g == v, key, o.str());
    }
  };
  if (w.elements) {
    same(ex.exclusion_elements_.closed_, closed, "excl-closed");
    same(ex.exclusion_elements_.open_, open, "excl-open");
  } else {
    c.check(ex.exclusion_elements_.closed_.empty() && ex.exclusion_elements_.open_.empty(), "excl-not-asked", "elements");
  }

  // routes exclude each other when they share an element and do not follow each other
  if (w.elements && w.graph) {
    auto const& g = ex.exclusion_graph_.nodes_;
    if (!c.eq(g.size(), count, "excl-graph", "nodes")) return;
    std::map<unsigned, std::vector<unsigned>> used;
    for (unsigned k = 0; k < count; ++k) {
      for (auto const e : closed[k]) used[e].push_back(k);
    }
    for (unsigned k = 0; k < count; ++k) {
      std::set<unsigned> want;
      for (auto const e : closed[k]) {
        for (auto const o : used[e]) {
          if (ends[o].first == ends[k].second || ends[o].second == ends[k].first) continue;
          want.insert(o);
        }
      }
      std::set<unsigned> seen;
      for (auto const x : g[k]) {
        if (!c.check(seen.empty() || *seen.rbegin() < x, "excl-graph", "routes excluded by ", k, " are not in order")) break;
        seen.insert(x);
        if (seen.size() > count) break;
      }
      std::ostringstream o;
      if (seen != want) {
        o << "route " << k << " excludes";
        for (auto const x : seen) o << " " << x;
        o << ", expected";
        for (auto const x : want) o << " " << x;
      }
      c.check(seen == want, "excl-graph", o.str());
      c.stat("exclusions", want.size());
      if (want.size() < count) c.stat("independent_pairs", count - want.size());
      for (int q = 0; q < 4; ++q) {
        auto const x = static_cast<unsigned>(c.r.below(count));
        c.check(g[k][x] == (want.count(x) > 0), "excl-graph-lookup", k, " ", x);
        c.check(g[k][x] == g[x][k], "excl-graph-symmetric", k, " ", x);
      }
    }
  } else {
    c.check(ex.exclusion_graph_.nodes_.empty(), "excl-not-asked", "graph");
  }
}
