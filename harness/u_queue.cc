// U05: priority queue
#include "common.h"

#include <algorithm>
#include <memory>
#include <set>
#include <string>

#include "soro/utls/container/priority_queue.h"

namespace {

using soro::utls::priority_queue;

struct item {
  item(int k, std::string s) : key_{k}, s_{std::make_unique<std::string>(std::move(s))} {}
  explicit item(int k) : item{k, "k" + std::to_string(k)} {}
  int key_;
  std::unique_ptr<std::string> s_;  // move only, double free visible to ASan
};

CASES(U05) {
  auto const greater = [](item const& a, item const& b) { return a.key_ > b.key_; };
  auto const less = [](item const& a, item const& b) { return a.key_ < b.key_; };
  auto const run = [&](auto cmp, bool min_first) {
    priority_queue<item, decltype(cmp)> q{cmp};
    std::multiset<int> model;
    auto const big = c.r.chance(3);
    auto const n = c.r.below(big ? 4000 : 120);
    auto const span = c.r.chance(30) ? 4 : 1000;
    auto const grow = big ? 90 : 60;
    for (std::size_t i = 0; i < n; ++i) {
      if (c.r.chance(grow) || model.empty()) {
        auto const k = static_cast<int>(c.r.in(-span, span));
        c.sig(static_cast<std::uint64_t>(k));
        switch (c.r.below(3)) {
          case 0: q.emplace(k); break;
          case 1: q.emplace(k, "k" + std::to_string(k)); break;
          default: q.emplace(item{k}); break;
        }
        model.insert(k);
      } else {
        auto const want = min_first ? *model.begin() : *model.rbegin();
        c.eq(q.top().key_, want, "pq-top", "min_first=", min_first);
        q.pop();
        model.erase(min_first ? model.begin() : std::prev(model.end()));
        c.stat("pops");
      }
      c.check(q.empty() == model.empty(), "pq-empty", "size ", model.size());
      if (big && !c.r.chance(2)) continue;
      std::multiset<int> seen;
      for (auto const& x : q) {
        seen.insert(x.key_);
        if (x.s_ == nullptr || *x.s_ != "k" + std::to_string(x.key_)) {
          c.fail("pq-payload", "payload of " + std::to_string(x.key_) + " lost");
        }
      }
      c.check(seen == model, "pq-contents", "iteration shows ", seen.size(), " of ", model.size());
    }
    int last = 0;
    bool first = true;
    while (!q.empty()) {
      auto const k = q.top().key_;
      if (!first) c.check(min_first ? k >= last : k <= last, "pq-order", last, " then ", k);
      first = false;
      last = k;
      auto const it = model.find(k);
      if (!c.check(it != model.end(), "pq-invented", k)) break;
      model.erase(it);
      q.pop();
    }
    c.check(model.empty(), "pq-lost", model.size(), " left");
    if (n > 3) c.nontrivial();
    c.note("queue of " + std::to_string(n) + " operations ");
  };
  if (c.r.chance(50)) {
    run(greater, true);
  } else {
    run(less, false);
  }
  // plain ints with the usual comparator
  priority_queue<int, std::greater<>> q{std::greater<>{}};
  std::vector<int> v;
  for (auto n = c.r.below(40); n > 0; --n) {
    v.push_back(static_cast<int>(c.r.in(-20, 20)));
    q.emplace(v.back());
  }
  std::vector<int> out;
  while (!q.empty()) {
    out.push_back(q.top());
    q.pop();
  }
  std::sort(v.begin(), v.end());
  c.eq(out, v, "pq-sorts");
}

}  // namespace
