// U07: containers
#include "common.h"

#include <algorithm>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string_view>

#include "soro/utls/container/constexpr_map.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/container/offset_container.h"
#include "soro/utls/container/optional.h"
#include "soro/utls/container/sorted_vector.h"

namespace {

namespace u = soro::utls;

struct thing {
  using id = std::uint32_t;
  using ptr = soro::ptr<thing>;
  id id_{};
  int payload_{};
};

CASES(U07) {
  // constant map: first entry of a key, nothing invented
  auto const constants = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
    u::constexpr_map<int, int, N> m{};
    std::map<int, int> model;
    auto const span = static_cast<int>(N) + 1;
    for (std::size_t i = 0; i < N; ++i) {
      auto const k = static_cast<int>(c.r.in(0, span));
      auto const v = static_cast<int>(c.r.in(-1000, 1000));
      m.data_[i] = {k, v};
      model.emplace(k, v);
      c.sig(static_cast<std::uint64_t>(k * 4000 + v));
    }
    for (int k = -1; k < span + 3; ++k) {
      auto const it = model.find(k);
      bool threw = false;
      int got = 0;
      try {
        got = m.at(k);
      } catch (std::exception const&) {
        threw = true;
      }
      c.check(threw == (it == model.end()), "constexpr-map-missing", k, " of ", N);
      if (!threw && it != model.end()) c.eq(got, it->second, "constexpr-map-value", k, " of ", N);
    }
  };
  constants(std::integral_constant<std::size_t, 1>{});
  constants(std::integral_constant<std::size_t, 7>{});
  constants(std::integral_constant<std::size_t, 40>{});
  // ranges
  std::vector<int> v(c.r.below(12));
  std::iota(v.begin(), v.end(), 3);
  auto const from = c.r.below(v.size() + 1);
  auto const r = u::make_range(v.begin() + static_cast<long>(from), v.end());
  c.eq(std::vector<int>(r.begin(), r.end()), std::vector<int>(v.begin() + static_cast<long>(from), v.end()),
       "it-range");
  std::list<int> const l(v.begin(), v.end());
  auto const rl = u::make_range(l);
  c.eq(std::vector<int>(rl.begin(), rl.end()), v, "it-range-container");
  auto unpack = u::make_range(v.begin(), v.end());
  std::tuple<std::vector<int>::iterator&, std::vector<int>::iterator&> const t = unpack;
  c.check(std::get<0>(t) == v.begin() && std::get<1>(t) == v.end(), "it-range-tuple", v.size());
  // sorted vector
  soro::vector<int> raw;
  for (auto n = c.r.below(c.r.chance(90) ? 20 : 400); n > 0; --n) raw.push_back(static_cast<int>(c.r.in(-9, 9)));
  auto want = raw;
  std::sort(want.begin(), want.end());
  {
    auto copy = raw;
    u::sorted_vector<int> s{std::move(copy)};
    c.eq(std::vector<int>(s.begin(), s.end()), want, "sorted-vector");
    c.eq(static_cast<std::size_t>(s.size()), want.size(), "sorted-vector-size");
    for (std::size_t i = 0; i < want.size(); ++i) {
      c.check(s[i] == want[i] && s.at(i) == want[i], "sorted-vector-at", i);
    }
    auto const out = soro::vector<int>(s.move_out());
    c.eq(out, want, "sorted-vector-move-out");
    auto copy2 = raw;
    u::sorted_vector<int> d{std::move(copy2), std::greater<>{}};
    auto down = want;
    std::reverse(down.begin(), down.end());
    c.eq(std::vector<int>(d.begin(), d.end()), down, "sorted-vector-cmp");
    // an order that does not tell all elements apart loses none of them
    auto copy3 = raw;
    u::sorted_vector<int> g{std::move(copy3), [](int x, int y) { return x / 3 < y / 3; }};
    bool ordered = true;
    for (std::size_t i = 1; i < g.size(); ++i) ordered &= g[i - 1] / 3 <= g[i] / 3;
    std::vector<int> all(g.begin(), g.end());
    std::sort(all.begin(), all.end());
    c.check(ordered && all == std::vector<int>(want.begin(), want.end()), "sorted-vector-groups", all.size(), " of ",
            want.size());
  }
  // offset container
  auto const off = static_cast<std::size_t>(c.r.chance(80) ? c.r.in(0, 1000) : c.r.in(60000, 5000000000LL));
  auto const n = static_cast<std::size_t>(c.r.in(1, c.r.chance(90) ? 20 : 1000));
  u::offset_container<std::vector<int>> oc{off, n};
  oc.resize(n);
  for (std::size_t i = 0; i < n; ++i) oc[off + i] = static_cast<int>(i * 7);
  auto const& coc = oc;
  for (std::size_t i = 0; i < n; ++i) {
    c.check(coc[off + i] == static_cast<int>(i * 7), "offset-container", "index ", off + i, " holds ",
            coc[off + i]);
  }
  oc.resize(n + 5);
  for (std::size_t i = 0; i < n; ++i) {
    c.check(coc[off + i] == static_cast<int>(i * 7), "offset-container-resize", off + i);
  }
  c.nontrivial();
  c.stat("container_rounds");
}

template <typename T>
void optional_case(vh::ctx& c, std::vector<T> const& pool) {
  using opt = u::optional<T>;
  using model = std::optional<T>;
  std::vector<opt> a(4);
  std::vector<model> m(4);
  auto const same = [&](char const* key) {
    for (std::size_t i = 0; i < 4; ++i) {
      c.check(a[i].has_value() == m[i].has_value() && static_cast<bool>(a[i]) == m[i].has_value(), key,
              "slot ", i, " has value ", a[i].has_value());
      if (a[i].has_value() && m[i].has_value()) {
        c.check(*a[i] == *m[i] && a[i].value() == *m[i], key, "slot ", i, " value differs");
        c.check(*std::as_const(a[i]) == *m[i] && std::as_const(a[i]).value() == *m[i], key, "slot ", i);
      }
    }
  };
  for (int k = 0; k < 40; ++k) {
    auto const i = c.r.below(4), j = c.r.below(4);
    auto const x = c.r.pick(pool);
    c.sig(static_cast<std::uint64_t>(k) * 16 + i * 4 + j);
    switch (c.r.below(8)) {
      case 0: a[i] = opt{x}; m[i] = x; same("optional-assign"); break;
      case 1: a[i].reset(); m[i].reset(); same("optional-reset"); break;
      case 2: a[i] = a[j]; m[i] = m[j]; same("optional-copy"); break;
      case 3: a[i] = opt{std::nullopt}; m[i] = std::nullopt; same("optional-null"); break;
      case 4: {
        a[i].swap(a[j]);
        std::swap(m[i], m[j]);
        same("optional-swap");
        break;
      }
      case 5: {
        c.check(a[i].value_or(x) == m[i].value_or(x), "optional-value-or", "slot ", i);
        // whatever the other value is, even the one that marks an empty slot
        auto const none = u::get_default_invalid<T>();
        c.check(a[i].value_or(none) == m[i].value_or(none), "optional-value-or", "slot ", i);
        c.check(opt{a[i]}.value_or(x) == m[i].value_or(x), "optional-value-or", "moved slot ", i);
        auto const e2 = opt{a[i]}.or_else([&] { return opt{}; });
        c.check(e2.has_value() == m[i].has_value(), "optional-or-else", "slot ", i);
        auto const e = a[i].or_else([&] { return opt{x}; });
        c.check(*e == m[i].value_or(x), "optional-or-else", "slot ", i);
        break;
      }
      case 6: {
        int called = 0;
        a[i].execute_if([&](T const y) {
          ++called;
          c.check(m[i].has_value() && y == *m[i], "optional-execute-if", "slot ", i);
        });
        c.check(called == (m[i].has_value() ? 1 : 0), "optional-execute-if", "called ", called);
        auto const tr = a[i].transform([](T const y) { return std::string{y == T{} ? "zero" : "other"}; });
        c.check(tr == (m[i].has_value() ? (*m[i] == T{} ? "zero" : "other") : ""), "optional-transform", tr);
        auto const th = a[i].and_then([&](T const&) { return opt{x}; });
        c.check(th.has_value() == m[i].has_value() && (!th.has_value() || *th == x), "optional-and-then",
                "slot ", i);
        break;
      }
      default:
        if (m[i].has_value()) {
          *a[i] = x;
          *m[i] = x;
        }
        same("optional-deref-write");
    }
  }
  c.nontrivial();
  c.stat("optional_rounds");
}

CASES(U07) {
  static int objs[5];
  optional_case<std::uint16_t>(c, {0, 1, 2, 65534});
  optional_case<int>(c, {0, -1, 7, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::min()});
  optional_case<std::uint8_t>(c, {0, 1, 127, 128, 254});
  optional_case<std::int64_t>(c, {0, -1, 4294967295LL, 4294967296LL, std::numeric_limits<std::int64_t>::min()});
  optional_case<std::uint32_t>(c, {0, 1, 65535, 2147483648U, 4294967294U});
  optional_case<int*>(c, {&objs[0], &objs[1], &objs[4]});
}

CASES(U07) {  // iterating things by id
  std::vector<thing> things(static_cast<std::size_t>(c.r.in(1, 12)));
  auto const many = c.r.chance(1) && c.r.chance(50);
  if (many) things.resize(70000);
  soro::vector<thing::ptr> ptrs;
  soro::vector<thing> objs;
  for (std::size_t i = 0; i < things.size(); ++i) {
    things[i] = {static_cast<thing::id>(i), static_cast<int>(c.r.in(0, 1000))};
    ptrs.push_back(&things[i]);
    objs.push_back(things[i]);
  }
  soro::vector<thing::id> ids;
  for (auto n = many ? 70000 : c.r.below(15); n > 0; --n) {
    ids.push_back(static_cast<thing::id>(c.r.below(things.size())));
    c.sig(ids.back());
  }
  auto const sz = static_cast<std::ptrdiff_t>(ids.size());
  auto const work = [&](auto const& container, char const* kind) {
    using it_t = u::id_iterator<soro::vector<thing::id>::const_iterator, std::decay_t<decltype(container)>>;
    it_t const b{ids.cbegin(), &container}, e{ids.cend(), &container};
    std::ptrdiff_t k = 0;
    for (auto it = b; it != e; ++it, ++k) {
      c.check((*it).id_ == ids[static_cast<std::size_t>(k)], "id-iterator-deref", kind, " ", k);
      c.check(it->payload_ == things[ids[static_cast<std::size_t>(k)]].payload_, "id-iterator-arrow", kind, " ", k);
      c.check(it - b == k && e - it == sz - k, "id-iterator-distance", kind, " ", k);
    }
    c.eq(k, sz, "id-iterator-count", kind);
    for (int n = 0; n < 12 && sz > 0; ++n) {
      auto const i = c.r.in(0, sz - 1), j = c.r.in(0, sz - 1);
      auto const at = [&](std::ptrdiff_t x) { return ids[static_cast<std::size_t>(x)]; };
      c.check(b[i].id_ == at(i), "id-iterator-index", kind, " ", i);
      c.check((*(b + i)).id_ == at(i) && (*(i + b)).id_ == at(i) && (*(e - (sz - i))).id_ == at(i),
              "id-iterator-plus", kind, " ", i);
      auto it = b;
      it += i;
      c.check((*it).id_ == at(i), "id-iterator-plus-assign", kind, " ", i);
      it += j - i;
      c.check((*it).id_ == at(j), "id-iterator-plus-assign", kind, " ", j);
      it -= j;
      c.check(it == b, "id-iterator-minus-assign", kind, " ", j);
      auto const x = b + i, y = b + j;
      c.check((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) &&
                  (x == y) == (i == j) && (x != y) == (i != j),
              "id-iterator-order", kind, " ", i, " ", j);
      auto z = x;
      auto const old = z++;
      c.check(old == x && z - x == 1, "id-iterator-post-increment", kind);
      auto const old2 = z--;
      c.check(old2 - x == 1 && z == x, "id-iterator-post-decrement", kind);
      c.check(--(++z) == x, "id-iterator-pre-step", kind);
    }
    std::vector<thing::id> rev;
    for (auto it = e; it != b;) {
      --it;
      rev.push_back((*it).id_);
    }
    std::reverse(rev.begin(), rev.end());
    c.eq(rev, std::vector<thing::id>(ids.begin(), ids.end()), "id-iterator-reverse", kind);
  };
  work(ptrs, "pointers");
  work(objs, "objects");
  if (sz > 1) c.nontrivial();
  c.stat("id_ranges");
}

}  // namespace
