// S02: algorithms on ordering graphs.
#include "common.h"

#include <deque>

#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/simulation/ordering/ordering_graph.h"
#include "soro/simulation/ordering/remove_transitive_edges.h"

using namespace soro;
using namespace soro::simulation;

namespace {

using edges = std::vector<std::set<unsigned>>;

edges random_edges(vh::ctx& c, unsigned const n, bool const acyclic) {
  edges e(n);
  std::vector<unsigned> rank(n);
  for (unsigned i = 0; i < n; ++i) rank[i] = i;
  if (c.r.chance(60)) c.r.shuffle(rank);
  if (!acyclic && n > 8 && c.r.chance(30)) {
    // disjoint rings of different sizes
    for (unsigned a = 0; a < n;) {
      auto const len = static_cast<unsigned>(std::min<std::int64_t>(c.r.chance(50) ? c.r.in(9, 20) : c.r.in(2, 20), n - a));
      for (unsigned i = 0; i < len; ++i) e[rank[a + i]].insert(rank[a + (i + 1) % len]);
      a += len;
    }
    return e;
  }
  auto const kind = c.r.below(4);
  auto const pct = kind == 0 ? 5U : kind == 1 ? 15U : kind == 2 ? 40U : 80U;
  for (unsigned a = 0; a < n; ++a) {
    for (unsigned b = 0; b < n; ++b) {
      if (acyclic ? a < b : (a != b || c.r.chance(5))) {
        if (c.r.chance(pct) || (b == a + 1 && c.r.chance(50))) e[rank[a]].insert(rank[b]);
      }
    }
  }
  return e;
}

ordering_graph make(edges const& e) {
  ordering_graph og;
  og.nodes_.resize(e.size());
  for (unsigned i = 0; i < e.size(); ++i) {
    og.nodes_[i].id_ = i;
    og.nodes_[i].ir_id_ = i;
    og.nodes_[i].train_id_ = 0;
  }
  for (unsigned i = 0; i < e.size(); ++i) {
    for (auto const t : e[i]) {
      og.nodes_[i].out_.push_back(t);
      og.nodes_[t].in_.push_back(i);
    }
  }
  return og;
}

// reach[a][b]: b reachable from a over at least one edge
std::vector<std::vector<bool>> closure(edges const& e) {
  auto const n = e.size();
  std::vector<std::vector<bool>> r(n, std::vector<bool>(n, false));
  for (std::size_t a = 0; a < n; ++a) {
    std::deque<unsigned> q(e[a].begin(), e[a].end());
    while (!q.empty()) {
      auto const x = q.front();
      q.pop_front();
      if (r[a][x]) continue;
      r[a][x] = true;
      for (auto const y : e[x]) q.push_back(y);
    }
  }
  return r;
}

std::string show(edges const& e) {
  std::ostringstream s;
  for (std::size_t i = 0; i < e.size(); ++i) {
    for (auto const t : e[i]) s << i << ">" << t << " ";
  }
  return s.str().substr(0, 600);
}

unsigned size_of(vh::ctx& c) {
  return static_cast<unsigned>(c.r.chance(15) ? c.r.in(1, 3) : c.r.chance(15) ? c.r.in(40, 90) : c.r.in(2, 22));
}

}  // namespace

// removing transitive edges leaves the unique smallest graph with the same reachability
CASES(S02) {
  auto const n = size_of(c);
  auto const e = random_edges(c, n, true);
  auto const reach = closure(e);
  auto og = make(e);
  c.sig(show(e) + std::to_string(n));
  c.note(show(e));
  remove_transitive_edges(og);
  c.check(og.nodes_.size() == n, "order-nodes", og.nodes_.size());
  std::size_t removed = 0, kept = 0;
  for (unsigned a = 0; a < n; ++a) {
    std::set<unsigned> expect;
    for (auto const b : e[a]) {
      bool transitive = false;
      for (auto const x : e[a]) transitive |= x != b && reach[x][b];
      if (transitive) ++removed;
      else {
        ++kept;
        expect.insert(b);
      }
    }
    auto const& out = og.nodes_[a].out_;
    c.check(std::set<unsigned>(out.begin(), out.end()) == expect && out.size() == expect.size(),
            "order-transitive", "node ", a, " keeps ", out.size(), " expected ", expect.size(), " of ", show(e));
  }
  for (unsigned b = 0; b < n; ++b) {
    std::multiset<unsigned> in(og.nodes_[b].in_.begin(), og.nodes_[b].in_.end()), expect;
    for (unsigned a = 0; a < n; ++a) {
      for (auto const t : og.nodes_[a].out_) {
        if (t == b) expect.insert(a);
      }
    }
    c.check(in == expect, "order-in-mirrors-out", "node ", b, " of ", show(e));
  }
  if (removed > 0 && kept > 1) c.nontrivial();
  c.stat("removed", removed);
  c.stat("kept", kept);
}

// long chains with shortcuts
CASES(S02) {
  auto const n = static_cast<unsigned>(c.r.in(240, 420));
  edges e(n);
  for (unsigned i = 0; i + 1 < n; ++i) e[i].insert(i + 1);
  auto const cuts = 1 + c.r.below(6);
  std::string sig = std::to_string(n);
  for (unsigned i = 0; i < cuts; ++i) {
    auto const a = static_cast<unsigned>(c.r.below(n - 3));
    auto const b = c.r.chance(40) ? n - 1 : static_cast<unsigned>(c.r.in(a + 2, n - 1));
    e[a].insert(b);
    sig += "," + std::to_string(a) + ">" + std::to_string(b);
  }
  c.sig(sig);
  c.nontrivial();
  auto og = make(e);
  remove_transitive_edges(og);
  for (unsigned a = 0; a < n; ++a) {
    auto const& out = og.nodes_[a].out_;
    auto const& in = og.nodes_[a].in_;
    bool const ok = a + 1 == n ? out.empty() : out.size() == 1 && out.front() == a + 1;
    c.check(ok && in.size() == (a == 0 ? 0U : 1U), "order-chain", "node ", a, " of ", sig);
  }
  c.stat("chains");
}

// cycles: found exactly if there is one, real, simple and shortest
CASES(S02) {
  auto const n = size_of(c);
  bool const acyclic = c.r.chance(25);
  auto const e = random_edges(c, n, acyclic);
  auto const og = make(e);
  auto const before = og.nodes_.size();
  c.sig(show(e) + std::to_string(n));
  // length of the shortest cycle through every node
  std::vector<unsigned> shortest(n, 0);
  for (unsigned s = 0; s < n; ++s) {
    std::vector<unsigned> d(n, 0);
    std::deque<unsigned> q;
    for (auto const t : e[s]) {
      if (d[t] == 0) {
        d[t] = 1;
        q.push_back(t);
      }
    }
    while (!q.empty()) {
      auto const x = q.front();
      q.pop_front();
      for (auto const y : e[x]) {
        if (d[y] == 0) {
          d[y] = d[x] + 1;
          q.push_back(y);
        }
      }
    }
    shortest[s] = d[s];
  }
  auto const valid = [&](cycle const& cy, char const* key) {
    bool ok = !cy.empty();
    for (std::size_t i = 0; ok && i < cy.size(); ++i) {
      ok = cy[i] < n && e[cy[i]].count(cy[(i + 1) % cy.size()]) != 0;
    }
    ok = ok && std::set<unsigned>(cy.begin(), cy.end()).size() == cy.size();
    std::ostringstream s;
    for (auto const x : cy) s << x << " ";
    return c.check(ok, key, "cycle ", s.str(), "in ", show(e));
  };
  auto const cycles = get_cycles(og);
  std::size_t on_cycle = 0;
  unsigned best = 0;
  for (auto const s : shortest) {
    if (s != 0) {
      ++on_cycle;
      if (best == 0 || s < best) best = s;
    }
  }
  c.check(cycles.size() == on_cycle, "cycles-count", cycles.size(), " expected ", on_cycle, " in ", show(e));
  std::multiset<std::size_t> lengths, expect;
  for (auto const s : shortest) {
    if (s != 0) expect.insert(s);
  }
  for (auto const& cy : cycles) {
    valid(cy, "cycles-valid");
    lengths.insert(cy.size());
  }
  c.check(lengths == expect, "cycles-lengths", show(e));
  auto const one = get_cycle(og);
  c.check(one.has_value() == (best != 0), "cycle-found", "shortest ", best, " in ", show(e));
  if (one.has_value()) {
    valid(*one, "cycle-valid");
    c.check(one->size() == best, "cycle-shortest", one->size(), " expected ", best, " in ", show(e));
    if (best > 1) c.nontrivial();
    c.stat("cyclic");
  } else {
    c.stat("acyclic");
    if (n > 3) c.nontrivial();
  }
  c.check(og.nodes_.size() == before, "cycle-graph-unchanged");
}

// two usages of conflicting routes have to be ordered
CASES(S02) {
  auto const n = size_of(c);
  auto const routes = static_cast<unsigned>(c.r.in(1, 12));
  auto e = random_edges(c, n, c.r.chance(80));
  if (c.r.chance(40)) {
    // total order: always fine
    for (unsigned i = 0; i + 1 < n; ++i) e[i].insert(i + 1);
  }
  auto const reach = closure(e);
  auto og = make(e);
  infra::infrastructure_t t;
  for (unsigned i = 0; i < routes; ++i) {
    infra::interlocking_route ir;
    ir.id_ = i;
    t.interlocking_.routes_.push_back(ir);
  }
  std::vector<std::vector<bool>> conflict(routes, std::vector<bool>(routes, false));
  t.exclusion_.irs_to_exclusion_sets_.resize(routes);
  auto const sets = c.r.below(5);
  for (unsigned s = 0; s < sets; ++s) {
    infra::interlocking_route::ids ids;
    for (unsigned i = 0; i < routes; ++i) {
      if (c.r.chance(30)) {
        ids.push_back(i);
        t.exclusion_.irs_to_exclusion_sets_[i].push_back(s);
      }
    }
    for (auto const a : ids) {
      for (auto const b : ids) conflict[a][b] = true;
    }
    t.exclusion_.exclusion_sets_.push_back(ids);
  }
  for (auto& node : og.nodes_) node.ir_id_ = static_cast<unsigned>(c.r.below(routes));
  bool expect = true;
  std::size_t pairs = 0;
  for (unsigned a = 0; a < n; ++a) {
    for (unsigned b = 0; b < a; ++b) {
      if (conflict[og.nodes_[a].ir_id_][og.nodes_[b].ir_id_]) {
        ++pairs;
        expect = expect && (reach[a][b] || reach[b][a]);
      }
    }
  }
  infra::infrastructure const infra(&t);
  c.check(has_exclusion_paths(og, infra) == expect, "order-exclusion-paths", "expected ", expect,
          " pairs ", pairs, " in ", show(e));
  c.sig(show(e) + std::to_string(pairs));
  if (pairs > 1) c.nontrivial();
  c.stat(expect ? "ordered" : "unordered");
}
