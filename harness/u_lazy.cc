// U01: lazily produced sequences
#include "common.h"

#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>

#include "soro/utls/coroutine/collect.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"

namespace {

using namespace soro::utls;

// Counts every live object: proves that each coroutine frame is destroyed
// exactly once, whatever happens to its generator.
struct guard {
  static inline long live = 0;
  static inline long made = 0;
  guard() { ++live, ++made; }
  guard(guard const&) { ++live, ++made; }
  ~guard() { --live; }
};

struct item {
  int id_{-1};
  std::string payload_;
  bool operator==(item const&) const = default;
  friend std::ostream& operator<<(std::ostream& o, item const& i) {
    return o << i.id_ << ":" << i.payload_;
  }
};

std::vector<int> numbers(vh::ctx& c, int max_len) {
  std::vector<int> v(c.r.below(static_cast<std::uint64_t>(max_len) + 1));
  for (auto& x : v) x = static_cast<int>(c.r.in(-1000, 1000));
  for (auto x : v) c.sig(static_cast<std::uint64_t>(x + 5000));
  if (v.size() > 1) c.nontrivial();
  return v;
}

std::vector<item> items(vh::ctx& c, int max_len) {
  std::vector<item> v;
  for (auto n : numbers(c, max_len)) {
    v.push_back({n, std::string(c.r.below(40), 'x')});
  }
  return v;
}

generator<int const> gen_const(std::vector<int> const& v, long& produced) {
  guard g;
  for (auto const& x : v) {
    ++produced;
    co_yield x;
  }
}

generator<int> gen_value(std::vector<int> const v, long& produced) {
  guard g;
  for (auto x : v) {
    ++produced;
    co_yield x;
  }
}

generator<item const&> gen_ref(std::vector<item> const& v) {
  guard g;
  for (auto const& x : v) co_yield x;
}

generator<item> gen_temp(std::vector<item> const& v) {
  guard g;
  for (auto const& x : v) {
    item tmp{x.id_, x.payload_};
    co_yield tmp;
  }
}

CASES(U01) {  // plain generators: order, multiplicity, laziness, identity
  auto const v = numbers(c, 40);
  auto const live = guard::live;
  {
    long produced = 0;
    auto g = gen_const(v, produced);
    c.eq(produced, v.empty() ? 0L : 1L, "generator-laziness",
         "values produced at construction");
    std::vector<int> got;
    for (auto const& x : g) {
      got.push_back(x);
      c.eq(produced, static_cast<long>(got.size()), "generator-laziness",
           "producer ran ahead");
    }
    c.eq(got, v, "generator-sequence", "generator<const>");
  }
  c.eq(guard::live, live, "generator-frame-leak", "frames alive");
  {
    long produced = 0;
    auto got = collect<std::vector<int>>(gen_value(v, produced));
    c.eq(got, v, "collect-sequence", "collect(generator<int>)");
    auto dbl = collect<std::vector<long>>(gen_value(v, produced),
                                          [](int x) { return 2L * x; });
    std::vector<long> want;
    for (auto x : v) want.push_back(2L * x);
    c.eq(dbl, want, "collect-map-sequence", "collect(gen, fn)");
    auto lst = collect<std::list<int>>(v);
    c.eq(lst, std::list<int>(v.begin(), v.end()), "collect-sequence",
         "collect<list>(vector)");
    auto ds = collect<std::deque<int>>(lst, [](int x) { return x + 1; });
    std::deque<int> wd;
    for (auto x : v) wd.push_back(x + 1);
    c.eq(ds, wd, "collect-map-sequence", "collect<deque>(list, fn)");
  }
  c.eq(guard::live, live, "generator-frame-leak", "frames alive");
  // begin() can be called repeatedly and does not advance
  {
    long produced = 0;
    auto g = gen_value(v, produced);
    if (!v.empty()) {
      c.check(g.begin() != g.end(), "generator-begin", "non-empty has begin");
      c.eq(*g.begin(), v[0], "generator-begin", "first");
      c.eq(*g.begin(), v[0], "generator-begin", "first again");
      c.eq(produced, 1L, "generator-begin", "begin advanced the producer");
      auto it = g.begin();
      std::size_t n = 0;
      for (; it != g.end(); it++) {
        c.eq(*it, v[n], "generator-sequence", "post-increment walk at ", n);
        ++n;
      }
      c.eq(n, v.size(), "generator-sequence", "walk length");
      c.check(g.begin() == g.end(), "generator-exhausted", "not at end");
    } else {
      c.check(g.begin() == g.end(), "generator-empty", "empty is not empty");
    }
    generator<int>::iterator e1, e2;
    c.check(e1 == e2, "generator-end-equal", "two end iterators differ");
  }
  c.stat("generator_walks", 5);
}

CASES(U01) {  // early abandonment and moves
  auto const v = items(c, 30);
  auto const live = guard::live;
  auto const stop = c.r.below(v.size() + 2);
  {
    auto g1 = gen_ref(v);
    auto g = std::move(g1);
    std::size_t n = 0;
    for (auto const& x : g) {
      c.check(&x == &v[n], "generator-identity",
              "reference does not alias the source at ", n);
      if (n++ == stop) break;
    }
    auto g2 = std::move(g);
    if (stop < v.size()) {
      c.eq(*g2.begin(), v[stop], "generator-move", "moved generator lost position");
      std::size_t m = stop;
      for (auto const& x : g2) {
        c.check(&x == &v[m], "generator-resume", "resumed at wrong element ", m);
        ++m;
      }
      c.eq(m, v.size(), "generator-resume", "resumed walk ended early");
    }
  }
  c.eq(guard::live, live, "generator-frame-leak", "frames alive after break at ", stop);
  {
    auto g = gen_temp(v);
    std::size_t n = 0;
    for (auto it = g.begin(); it != g.end(); ++it) {
      c.eq(it->id_, v[n].id_, "generator-arrow", "temporary at ", n);
      c.eq(it->payload_, v[n].payload_, "generator-arrow", "temporary at ", n);
      if (n++ == stop) break;
    }
    c.eq(n, std::min<std::size_t>(stop + 1, v.size()), "generator-sequence", "count");
  }
  c.eq(guard::live, live, "generator-frame-leak", "frames alive (temporaries)");
}

CASES(U01) {  // mapping
  auto const v = items(c, 30);
  auto const live = guard::live;
  {
    long calls = 0;
    // the source must outlive the mapped sequence: it is held by reference
    auto src = gen_ref(v);
    auto const triple = [&](item const& i) {
      ++calls;
      return i.id_ * 3;
    };
    auto m = coro_map(src, triple);
    std::vector<int> got;
    for (auto x : m) got.push_back(x);
    std::vector<int> want;
    for (auto const& i : v) want.push_back(i.id_ * 3);
    c.eq(got, want, "coro-map-sequence", "map over generator");
    c.eq(calls, static_cast<long>(v.size()), "coro-map-calls", "function calls");
    auto const addr = [&](item const& i) { return &i; };
    auto p = coro_map(v, addr);
    std::size_t n = 0;
    for (auto const* x : p) {
      c.check(x == &v[n], "coro-map-sequence", "map over vector at ", n);
      ++n;
    }
    c.eq(n, v.size(), "coro-map-sequence", "map length");
    // a function that returns references: the elements themselves come out
    auto r = coro_map(v, [](item const& i) -> item const& { return i; });
    n = 0;
    for (auto const& x : r) {
      c.check(&x == &v[n], "coro-map-identity", "reference function at ", n);
      ++n;
    }
    c.eq(n, v.size(), "coro-map-sequence", "map length");
    // ... and can be changed through the mapped sequence
    auto w = v;
    auto ids = coro_map(w, [](item& i) -> int& { return i.id_; });
    for (auto& x : ids) x += 7;
    for (n = 0; n < v.size(); ++n) c.eq(w[n].id_, v[n].id_ + 7, "coro-map-identity", "changed through at ", n);
    // everything in one full expression, as the code base uses it
    auto flat = collect<std::vector<int>>(
        coro_map(coro_map(v, [](item const& i) { return i.id_; }),
                 [](int x) { return x + 1; }));
    std::vector<int> w2;
    for (auto const& i : v) w2.push_back(i.id_ + 1);
    c.eq(flat, w2, "coro-map-sequence", "nested map");
  }
  c.eq(guard::live, live, "coro-map-leak", "frames alive");
}

// --- coroutine iterators --- //
coro_it<int> it_value(std::vector<int> const& v) {
  guard g;
  for (auto x : v) co_yield x;
}
coro_it<int> it_temp(std::vector<int> const& v) {
  guard g;
  for (auto x : v) co_yield x + 0;
}
coro_it<item&> it_ref(std::vector<item>& v) {
  guard g;
  for (auto& x : v) co_yield x;
}
coro_it<item const&> it_cref(std::vector<item> const& v) {
  guard g;
  for (auto const& x : v) co_yield x;
}

template <typename It>
struct range_of {
  It begin() { return b_(); }
  It end() { return {}; }
  std::function<It()> b_;
};

CASES(U01) {
  auto const v = numbers(c, 30);
  auto vi = items(c, 30);
  auto const live = guard::live;
  {
    std::vector<int> got;
    for (auto x : range_of<coro_it<int>>{[&] { return it_value(v); }}) got.push_back(x);
    c.eq(got, v, "coro-it-sequence", "by value");
    got.clear();
    for (auto x : range_of<coro_it<int>>{[&] { return it_temp(v); }}) got.push_back(x);
    c.eq(got, v, "coro-it-sequence", "temporaries");
    std::size_t n = 0;
    auto const before = vi;
    for (auto& x : range_of<coro_it<item&>>{[&] { return it_ref(vi); }}) {
      c.check(&x == &vi[n], "coro-it-identity", "reference at ", n);
      x.id_ += 1;
      ++n;
    }
    c.eq(n, vi.size(), "coro-it-sequence", "reference count");
    for (n = 0; n < vi.size(); ++n) {
      c.eq(vi[n].id_, before[n].id_ + 1, "coro-it-write", "write at ", n);
    }
    n = 0;
    auto const stop = c.r.below(vi.size() + 1);
    for (auto const& x : range_of<coro_it<item const&>>{[&] { return it_cref(vi); }}) {
      c.check(&x == &vi[n], "coro-it-identity", "const reference at ", n);
      if (n++ == stop) break;
    }
    auto it = it_cref(vi);
    for (n = 0; it != coro_it<item const&>{}; ++it, ++n) {
      c.eq(it->id_, vi[n].id_, "coro-it-arrow", "arrow at ", n);
    }
    c.check(!(it != coro_it<item const&>{}), "coro-it-end", "not at the end");
    c.check(coro_it<item const&>{} == it, "coro-it-end", "end is not symmetric");
    auto moved = it_value(v);
    auto target = std::move(moved);
    n = 0;
    for (; target != coro_it<int>{}; ++target) {
      c.eq(*target, v[n], "coro-it-move", "moved iterator at ", n);
      ++n;
    }
    // assigned over one in the middle of its walk: takes over the other's walk
    auto over = it_value(v);
    auto const skip = c.r.below(v.size() + 1);
    for (std::size_t i = 0; i < skip; ++i) ++over;
    {
      auto other = it_temp(v);
      over = std::move(other);
    }
    std::vector<int> rest;
    for (; over != coro_it<int>{}; ++over) rest.push_back(*over);
    c.eq(rest, v, "coro-it-move", "assigned over an unfinished walk");
    c.check(!std::is_copy_constructible_v<coro_it<int>>, "coro-it-copyable",
            "two iterators would own one frame");
  }
  c.eq(guard::live, live, "coro-it-leak", "frames alive");
}

// --- recursive generators over random trees --- //
struct tree {
  int value_;
  bool by_ref_{false};   // yields the child generator as an lvalue
  bool throws_{false};
  bool pre_{true};
  bool temp_{false};     // yields a temporary
  std::vector<tree> kids_;
};

struct boom : std::runtime_error {
  explicit boom(int v) : std::runtime_error("boom"), v_{v} {}
  int v_;
};

recursive_generator<int const> walk(tree const& t) {
  guard g;
  if (t.pre_) {
    if (t.temp_) {
      co_yield t.value_ + 0;
    } else {
      co_yield t.value_;
    }
  }
  for (auto const& k : t.kids_) {
    if (k.by_ref_) {
      auto sub = walk(k);
      co_yield sub;
    } else {
      co_yield walk(k);
    }
  }
  if (t.throws_) throw boom{t.value_};
  if (!t.pre_) {
    if (t.temp_) {
      co_yield t.value_ + 0;
    } else {
      co_yield t.value_;
    }
  }
}

// the value at which iteration must end by exception, if any
bool model(tree const& t, std::vector<int>& out, int& thrown) {
  if (t.pre_) out.push_back(t.value_);
  for (auto const& k : t.kids_) {
    if (!model(k, out, thrown)) return false;
  }
  if (t.throws_) {
    thrown = t.value_;
    return false;
  }
  if (!t.pre_) out.push_back(t.value_);
  return true;
}

tree make_tree(vh::ctx& c, int depth, int& budget, bool throwing) {
  tree t{static_cast<int>(c.r.below(100000))};
  t.by_ref_ = c.r.chance(50);
  t.pre_ = c.r.chance(50);
  t.temp_ = c.r.chance(30);
  --budget;
  auto kids = depth <= 0 ? 0 : c.r.below(4);
  while (kids-- > 0 && budget > 0) {
    t.kids_.push_back(make_tree(c, depth - 1, budget, throwing));
  }
  t.throws_ = throwing && c.r.chance(15);
  c.sig(static_cast<std::uint64_t>(t.value_) * 8 + t.by_ref_ * 4 + t.pre_ * 2 + t.throws_);
  return t;
}

void recursive_case(vh::ctx& c, bool throwing) {
  int budget = static_cast<int>(c.r.in(1, 60));
  auto const depth = static_cast<int>(c.r.in(0, 12));
  auto const t = make_tree(c, depth, budget, throwing);
  if (!t.kids_.empty()) c.nontrivial();
  std::vector<int> want;
  int thrown = -1;
  bool const completes = model(t, want, thrown);
  auto const live = guard::live;
  {
    std::vector<int> got;
    int caught = -1;
    try {
      for (auto x : walk(t)) {
        got.push_back(x);
        if (got.size() > want.size() + 5) break;
      }
    } catch (boom const& b) {
      caught = b.v_;
    }
    c.eq(got, want, "recursive-sequence", "flattened order");
    if (completes) {
      c.eq(caught, -1, "recursive-exception", "spurious exception");
    } else if (t.throws_ && thrown == t.value_) {
      // raised by the outermost producer: reaches the consumer
      c.eq(caught, thrown, "recursive-exception", "exception of the root lost");
    } else {
      c.eq(caught, thrown, "recursive-nested-exception",
           "exception of a nested producer lost");
    }
    c.stat(completes ? "recursive_completed" : "recursive_threw");
  }
  c.eq(guard::live, live, "recursive-leak", "frames alive");
  {  // abandon early; move; swap
    auto const stop = c.r.below(want.size() + 1);
    auto g0 = walk(t);
    auto g = std::move(g0);
    recursive_generator<int const> other;
    swap(g, other);
    std::size_t n = 0;
    try {
      for (auto x : other) {
        if (n < want.size()) c.eq(x, want[n], "recursive-sequence", "after move/swap at ", n);
        if (n++ == stop) break;
      }
    } catch (boom const&) {
    }
    n = 0;
    for ([[maybe_unused]] auto x : g) ++n;
    c.eq(n, std::size_t{0}, "recursive-default-empty", "default generator yields");
    g = walk(t);
    g = std::move(other);
  }
  c.eq(guard::live, live, "recursive-leak", "frames alive after abandonment");
  if (completes) {
    auto m = fmap([](int x) { return x * 2; }, walk(t));
    std::vector<int> got, w2;
    for (auto x : m) got.push_back(x);
    for (auto x : want) w2.push_back(2 * x);
    c.eq(got, w2, "recursive-fmap", "fmap order");
    auto g = walk(t);
    auto const v = g.emplace_back<std::vector<int>>();
    c.eq(v, want, "recursive-collect", "emplace_back");
  }
  c.eq(guard::live, live, "recursive-leak", "frames alive after fmap");
}

CASES(U01) { recursive_case(c, false); }
CASES(U01) { recursive_case(c, true); }

generator<int> gen_throwing(std::vector<int> const& v, std::size_t at) {
  guard g;
  std::size_t n = 0;
  for (auto x : v) {
    if (n++ == at) throw boom{x};
    co_yield x;
  }
}

coro_it<int> it_throwing(std::vector<int> const& v, std::size_t at) {
  guard g;
  std::size_t n = 0;
  for (auto x : v) {
    if (n++ == at) throw boom{x};
    co_yield x;
  }
}

CASES(U01) {  // failures of a producer reach the consumer
  auto v = numbers(c, 20);
  if (v.empty()) v.push_back(1);
  auto const at = c.r.below(v.size() + 1);
  auto const live = guard::live;
  std::vector<int> got;
  bool caught = false;
  try {
    for (auto x : gen_throwing(v, at)) got.push_back(x);
  } catch (boom const&) {
    caught = true;
  }
  c.eq(got, std::vector<int>(v.begin(), v.begin() + static_cast<long>(std::min(at, v.size()))),
       "generator-throw-prefix", "prefix before the failure");
  c.eq(caught, at < v.size(), "generator-exception-lost", "producer failed at ", at, " of ", v.size());
  c.eq(guard::live, live, "generator-throw-leak", "frames alive");
  got.clear();
  caught = false;
  try {
    for (auto it = it_throwing(v, at); it != coro_it<int>{}; ++it) got.push_back(*it);
  } catch (boom const&) {
    caught = true;
  }
  c.eq(got, std::vector<int>(v.begin(), v.begin() + static_cast<long>(std::min(at, v.size()))),
       "coro-it-throw-prefix", "prefix before the failure");
  c.eq(caught, at < v.size(), "coro-it-exception-lost", "coroutine iterator");
  c.eq(guard::live, live, "coro-it-throw-leak", "frames alive");
}

}  // namespace
