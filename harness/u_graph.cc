// U13: graph traversal and cycle detection
#include "common.h"

#include <deque>
#include <map>
#include <set>

#include "soro/utls/graph/has_cycle.h"
#include "soro/utls/graph/traversal.h"

namespace {

namespace u = soro::utls;

struct graph {
  std::vector<std::vector<std::size_t>> adj;
};

graph random_graph(vh::ctx& c) {
  graph g;
  auto const n = c.r.in(1, c.r.chance(92) ? 14 : 300);
  g.adj.resize(static_cast<std::size_t>(n));
  auto const m = c.r.below(static_cast<std::uint64_t>(n) * 3);
  bool const dag = c.r.chance(40);
  bool const multi = c.r.chance(30);
  for (std::uint64_t i = 0; i < m; ++i) {
    auto a = c.r.below(g.adj.size()), b = c.r.below(g.adj.size());
    if (dag) {
      if (a == b) continue;
      if (a < b) std::swap(a, b);
    }
    auto& out = g.adj[a];
    if (!multi && std::find(out.begin(), out.end(), b) != out.end()) continue;
    out.push_back(b);
    c.sig(a * 100 + b);
  }
  return g;
}

CASES(U13) {
  auto const g = random_graph(c);
  auto const n = g.adj.size();
  if (n > 2) c.nontrivial();
  // reachability, distances
  auto const start = c.r.below(n);
  std::vector<int> dist(n, -1);
  std::deque<std::size_t> q{start};
  dist[start] = 0;
  while (!q.empty()) {
    auto const x = q.front();
    q.pop_front();
    for (auto const y : g.adj[x]) {
      if (dist[y] == -1) {
        dist[y] = dist[x] + 1;
        q.push_back(y);
      }
    }
  }
  std::multiset<std::pair<std::size_t, std::size_t>> edges;
  for (std::size_t x = 0; x < n; ++x) {
    if (dist[x] < 0) continue;
    for (auto const y : g.adj[x]) edges.insert({x, y});
  }
  std::size_t const stop_after = c.r.chance(40) ? c.r.below(n + 1) : n + 100;
  auto const run = [&](bool breadth, bool with_edges) {
    std::vector<std::pair<std::size_t, std::size_t>> order;  // node, from
    std::multiset<std::pair<std::size_t, std::size_t>> seen_edges;
    auto const neigh = [&](std::size_t x) { return g.adj[x]; };
    bool stopped = false;
    auto const on_node = [&](std::size_t x, std::size_t from) {
      if (stopped) c.fail("traversal-after-stop", "node visited after the visitor said stop");
      order.emplace_back(x, from);
      stopped = order.size() >= stop_after;
      return stopped;
    };
    auto const on_edge = [&](std::size_t a, std::size_t b) {
      if (stopped) c.fail("traversal-after-stop", "edge visited after the visitor said stop");
      seen_edges.insert({a, b});
      return false;
    };
    if (breadth) {
      with_edges ? u::bfs(start, neigh, on_node, on_edge) : u::bfs(start, neigh, on_node);
    } else {
      with_edges ? u::dfs(start, neigh, on_node, on_edge) : u::dfs(start, neigh, on_node);
    }
    std::set<std::size_t> seen{start};
    int last = 0;
    for (auto const& [x, from] : order) {
      c.check(x != start, "traversal-start-revisited", "start ", start);
      c.check(seen.insert(x).second, "traversal-twice", "node ", x);
      c.check(std::count(g.adj[from].begin(), g.adj[from].end(), x) > 0, "traversal-from", x,
              " said to be reached from ", from);
      c.check(dist[x] >= 0, "traversal-unreachable", x);
      if (breadth) {
        c.check(dist[x] >= last, "bfs-order", "distance ", dist[x], " after ", last);
        c.check(dist[from] + 1 == dist[x], "bfs-shortest", x, " from ", from);
        last = dist[x];
      }
    }
    if (!stopped) {
      std::size_t reach = 0;
      for (auto const d : dist) reach += d >= 0;
      c.eq(seen.size(), reach, "traversal-complete", "from ", start);
      if (with_edges) c.eq(seen_edges, edges, "traversal-edges", "from ", start);
    } else {
      c.stat("stopped_early");
    }
    c.stat("traversals");
  };
  run(true, true);
  run(true, false);
  run(false, true);
  run(false, false);
  // stopping at an edge
  if (!edges.empty()) {
    auto const at = 1 + c.r.below(edges.size());
    std::size_t k = 0;
    u::bfs(start, [&](std::size_t x) { return g.adj[x]; }, [](auto, auto) { return false; },
           [&](auto, auto) { return ++k == at; });
    c.eq(k, at, "traversal-stop-at-edge");
  }
  // cycles: Kahn's algorithm as reference
  std::vector<std::size_t> indeg(n, 0);
  for (auto const& out : g.adj) {
    for (auto const y : out) ++indeg[y];
  }
  std::vector<std::size_t> ready;
  for (std::size_t i = 0; i < n; ++i) {
    if (indeg[i] == 0) ready.push_back(i);
  }
  std::size_t removed = 0;
  while (!ready.empty()) {
    auto const x = ready.back();
    ready.pop_back();
    ++removed;
    for (auto const y : g.adj[x]) {
      if (--indeg[y] == 0) ready.push_back(y);
    }
  }
  bool const cyc = removed != n;
  auto const got = u::has_cycle(g.adj, [](auto&& nodes, std::size_t x) { return nodes[x]; });
  c.eq(got, cyc, "has-cycle", n, " nodes");
  c.stat(cyc ? "cyclic" : "acyclic");
}

}  // namespace
