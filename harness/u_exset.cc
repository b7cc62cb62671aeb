// U14: exclusion sets are sets of numbers
#include "common.h"

#include <algorithm>
#include <iterator>
#include <set>

#include "soro/infrastructure/exclusion/exclusion_set.h"

namespace {

using soro::infra::exclusion_set;
using soro::infra::make_exclusion_set;
using S = std::set<std::uint32_t>;

std::uint32_t some_id(vh::ctx& c, int shape) {
  switch (shape) {
    case 0: return static_cast<std::uint32_t>(c.r.below(8));
    case 1: return static_cast<std::uint32_t>(c.r.below(200));
    case 2: {  // around word borders
      auto const b = static_cast<std::int64_t>(c.r.below(6)) * 64 + c.r.in(-2, 2);
      return static_cast<std::uint32_t>(std::max<std::int64_t>(0, b));
    }
    case 3: return static_cast<std::uint32_t>(1000 + c.r.below(300));
    default: return static_cast<std::uint32_t>(c.r.below(3000));
  }
}

void judge(vh::ctx& c, exclusion_set const& e, S const& m, char const* after) {
  c.check(e.ok(), "exset-invariant", "after ", after);
  c.check(e.empty() == m.empty() && e.any() != m.empty(), "exset-empty", "after ", after, " empty=", e.empty(),
          " members=", m.size());
  c.eq(e.count(), m.size(), "exset-count", "after ", after);
  std::vector<std::uint32_t> const want(m.begin(), m.end());
  auto const x = e.expanded_set();
  c.eq(std::vector<std::uint32_t>(x.begin(), x.end()), want, "exset-expanded", "after ", after);
  std::vector<std::uint32_t> it;
  for (auto const v : e) {
    it.push_back(v);
    if (it.size() > 5000) break;
  }
  c.eq(it, want, "exset-iteration", "after ", after);
  auto const probe = [&](std::uint32_t v) {
    c.check(e[v] == (m.count(v) != 0), "exset-member", "after ", after, ": ", v, " reported ", e[v]);
  };
  for (int i = 0; i < 6; ++i) probe(some_id(c, static_cast<int>(c.r.below(5))));
  if (!m.empty()) {
    for (auto const v : {*m.begin(), *m.rbegin()}) {
      probe(v);
      probe(v + 1);
      probe(v + 64);
      if (v > 0) probe(v - 1);
      if (v >= 64) probe(v - 64);
    }
    auto const k = c.r.below(m.size());
    c.eq(*(e.begin() + k), *std::next(m.begin(), static_cast<long>(k)), "exset-advance", "after ", after);
  }
}

CASES(U14) {
  constexpr int N = 4;
  exclusion_set e[N];
  S m[N];
  int const shape = static_cast<int>(c.r.below(5));
  auto const fresh = [&](int i) {
    m[i].clear();
    for (auto n = c.r.below(c.r.chance(20) ? 1 : 20); n > 0; --n) m[i].insert(some_id(c, shape));
    soro::vector<std::uint32_t> const v(m[i].begin(), m[i].end());
    e[i] = c.r.chance(50) ? make_exclusion_set(v) : make_exclusion_set(static_cast<std::uint32_t>(i), v);
    for (auto const x : v) c.sig(x);
  };
  for (int i = 0; i < N; ++i) {
    fresh(i);
    judge(c, e[i], m[i], "make");
  }
  for (int step = 0; step < 25; ++step) {
    int const i = static_cast<int>(c.r.below(N)), j = static_cast<int>(c.r.below(N));
    int const op = static_cast<int>(c.r.below(9));
    c.sig(static_cast<std::uint64_t>(op * 16 + i * 4 + j));
    switch (op) {
      case 0: {
        auto const v = some_id(c, shape);
        e[i].set(v);
        m[i].insert(v);
        judge(c, e[i], m[i], "set");
        break;
      }
      case 1: {
        auto const mj = m[j];
        e[i] |= e[j];
        m[i].insert(mj.begin(), mj.end());
        judge(c, e[i], m[i], "|=");
        break;
      }
      case 2: {
        auto const mj = m[j];
        e[i] -= e[j];
        for (auto const v : mj) m[i].erase(v);
        judge(c, e[i], m[i], "-=");
        break;
      }
      case 3: {
        auto const u = e[i] | e[j];
        S w = m[i];
        w.insert(m[j].begin(), m[j].end());
        judge(c, u, w, "|");
        judge(c, e[i], m[i], "| operand");
        judge(c, e[j], m[j], "| operand");
        break;
      }
      case 4: {
        auto const d = e[i] - e[j];
        S w = m[i];
        for (auto const v : m[j]) w.erase(v);
        judge(c, d, w, "-");
        judge(c, e[i], m[i], "- operand");
        break;
      }
      case 5:
      case 6: {
        if (op == 6 && !m[i].empty()) {  // make related sets
          m[j] = m[i];
          for (auto n = c.r.below(3); n > 0 && !m[j].empty(); --n) {
            m[j].erase(c.r.chance(50) ? m[j].begin() : std::prev(m[j].end()));
          }
          e[j] = make_exclusion_set({m[j].begin(), m[j].end()});
        }
        bool const ge = std::includes(m[i].begin(), m[i].end(), m[j].begin(), m[j].end());
        bool const le = std::includes(m[j].begin(), m[j].end(), m[i].begin(), m[i].end());
        auto const o = e[i].compare(e[j]);
        auto const want = ge && le  ? std::partial_ordering::equivalent
                          : ge      ? std::partial_ordering::greater
                          : le      ? std::partial_ordering::less
                                    : std::partial_ordering::unordered;
        c.check(o == want, "exset-compare", "subset both ways ", le, ge, " sizes ", m[i].size(), ",", m[j].size());
        c.check(e[i].contains(e[j]) == ge, "exset-contains", "expected ", ge);
        c.stat(ge && le ? "compare_equal" : ge ? "compare_greater" : le ? "compare_less" : "compare_unordered");
        break;
      }
      case 7:
        if (c.r.chance(30)) {
          e[i].clear();
          m[i].clear();
          judge(c, e[i], m[i], "clear");
        } else {
          fresh(i);
        }
        break;
      default: {
        auto a = make_exclusion_set({m[i].begin(), m[i].end()});
        auto b = e[i];
        b.id_ = a.id_;
        c.check(a == b, "exset-canonical", "a set built step by step differs from the same set built at once");
      }
    }
  }
  c.nontrivial();
  c.note("ids around shape " + std::to_string(shape) + ", sizes " + std::to_string(m[0].size()) + "," +
         std::to_string(m[1].size()));
}

}  // namespace
