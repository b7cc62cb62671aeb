// U06: sequence algorithms
#include "common.h"

#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <set>

#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/algo/slice.h"
#include "soro/utls/algo/sort_and_intersect.h"
#include "soro/utls/map/insert_or.h"
#include "soro/utls/ranges/to.h"
#include "soro/utls/std_wrapper/accumulate.h"
#include "soro/utls/std_wrapper/all_of.h"
#include "soro/utls/std_wrapper/any_of.h"
#include "soro/utls/std_wrapper/contains.h"
#include "soro/utls/std_wrapper/contains_if.h"
#include "soro/utls/std_wrapper/copy.h"
#include "soro/utls/std_wrapper/count.h"
#include "soro/utls/std_wrapper/count_if.h"
#include "soro/utls/std_wrapper/find.h"
#include "soro/utls/std_wrapper/find_if.h"
#include "soro/utls/std_wrapper/find_if_position.h"
#include "soro/utls/std_wrapper/find_position.h"
#include "soro/utls/std_wrapper/is_sorted.h"
#include "soro/utls/std_wrapper/min_element.h"
#include "soro/utls/std_wrapper/reverse.h"
#include "soro/utls/std_wrapper/set_difference.h"
#include "soro/utls/std_wrapper/sort.h"
#include "soro/utls/string.h"

namespace {

namespace u = soro::utls;
using V = std::vector<int>;

V some(vh::ctx& c, unsigned max_n = 24) {
  V v;
  // now and then many elements, or far apart ones
  if (max_n == 24 && c.r.chance(4)) max_n = 700;
  auto const span = max_n == 700 ? 2000 : c.r.chance(50) ? 4 : c.r.chance(80) ? 50 : 2147483647;
  for (auto n = c.r.below(max_n + 1); n > 0; --n) {
    v.push_back(static_cast<int>(c.r.in(-span, span)));
    c.sig(static_cast<std::uint64_t>(v.back()));
  }
  return v;
}
V sorted(V v) {
  std::sort(v.begin(), v.end());
  return v;
}
V set_of(V const& a) {
  std::set<int> const s(a.begin(), a.end());
  return {s.begin(), s.end()};
}

// exactly sized, so that reads past either end are seen by ASan
CASES(U06) {
  for (int round = 0; round < 10; ++round) {
    auto v = some(c);
    v.shrink_to_fit();
    if (v.size() > 1) c.nontrivial();
    int const k = v.empty() || c.r.chance(20) ? 99 : c.r.pick(v);
    auto const hit = [k](int x) { return x == k; };
    // cut everything behind the last match / before the first match
    {
      V want;
      bool found = false;
      for (auto i = v.size(); i > 0; --i) {
        if (v[i - 1] == k) {
          want.assign(v.begin(), v.begin() + static_cast<long>(i));
          found = true;
          break;
        }
      }
      if (!found) want = {};
      auto got = v;
      u::remove_after(got, hit);
      c.eq(got, want, "remove-after", "k=", k);
      auto got2 = std::deque<int>(v.begin(), v.end());
      u::remove_after(got2, hit);
      c.eq(V(got2.begin(), got2.end()), want, "remove-after-deque", "k=", k);
    }
    {
      V want;
      bool on = false;
      for (auto const x : v) {
        on |= x == k;
        if (on) want.push_back(x);
      }
      auto got = v;
      u::remove_until(got, hit);
      c.eq(got, want, "remove-until", "k=", k);
      auto got2 = std::deque<int>(v.begin(), v.end());
      u::remove_until(got2, hit);
      c.eq(V(got2.begin(), got2.end()), want, "remove-until-deque", "k=", k);
    }
    // move-only elements survive
    {
      std::vector<std::unique_ptr<int>> p;
      for (auto const x : v) p.push_back(std::make_unique<int>(x));
      u::remove_until(p, [k](auto const& x) { return *x == k; });
      u::remove_after(p, [k](auto const& x) { return *x == k; });
      V const got = [&] {
        V r;
        for (auto const& x : p) r.push_back(*x);
        return r;
      }();
      V want = v;
      while (!want.empty() && want.front() != k) want.erase(want.begin());
      while (!want.empty() && want.back() != k) want.pop_back();
      c.eq(got, want, "remove-both", "k=", k);
    }
    // searching and folding
    std::list<int> const l(v.begin(), v.end());
    int const* const arr = v.data();
    (void)arr;
    std::size_t pos = 0, cnt = 0;
    bool any = false, all = true, is_s = true;
    long long sum = 0;
    while (pos < v.size() && v[pos] != k) ++pos;
    for (std::size_t i = 0; i < v.size(); ++i) {
      cnt += v[i] == k;
      any |= v[i] == k;
      all &= v[i] == k;
      sum += v[i];
      if (i > 0 && v[i] < v[i - 1]) is_s = false;
    }
    c.eq(u::contains(v, k), any, "contains");
    c.eq(u::contains(l, k), any, "contains-list");
    c.eq(u::contains_if(v, hit), any, "contains-if");
    c.eq(u::any_of(v, hit), any, "any-of");
    c.eq(u::all_of(v, hit), all, "all-of");
    std::vector<bool> bits;
    for (auto const x : v) bits.push_back(x == k);
    c.eq(u::any_of(bits), any, "any-of-bits");
    c.eq(u::all_of(bits), all, "all-of-bits");
    std::list<bool> const lb(bits.begin(), bits.end());
    c.eq(u::any_of(lb), any, "any-of-bools");
    c.eq(u::all_of(lb), all, "all-of-bools");
    c.eq(u::count(v, k), cnt, "count");
    c.eq(static_cast<std::size_t>(u::count_if(v, hit)), cnt, "count-if");
    c.eq(static_cast<std::size_t>(u::find(v, k) - v.begin()), pos, "find");
    c.eq(static_cast<std::size_t>(u::find_if(v, hit) - v.begin()), pos, "find-if");
    c.eq(u::find_position(v, k), pos, "find-position");
    c.eq(u::find_position(l, k), pos, "find-position-list");
    c.eq(u::find_if_position(v, hit), pos, "find-if-position");
    c.eq(u::find_if_position(l, hit), pos, "find-if-position-list");
    c.eq(u::accumulate(v, 7LL), sum + 7, "accumulate");
    c.eq(u::accumulate(v, std::string{"s"}, [](std::string a, int x) { return a + "," + std::to_string(x); }),
         [&] {
           std::string s = "s";
           for (auto const x : v) s += "," + std::to_string(x);
           return s;
         }(),
         "accumulate-fn");
    c.eq(u::is_sorted(v), is_s, "is-sorted");
    bool down = true;
    for (std::size_t i = 1; i < v.size(); ++i) down &= !(v[i] > v[i - 1]);
    c.eq(u::is_sorted(v, std::greater<>{}), down, "is-sorted-cmp");
    if (!v.empty()) {
      std::size_t m = 0, mx = 0;
      for (std::size_t i = 1; i < v.size(); ++i) {
        if (v[i] < v[m]) m = i;
        if (v[i] > v[mx]) mx = i;
      }
      c.eq(static_cast<std::size_t>(u::min_element(v, std::less<>{}) - v.begin()), m, "min-element");
      c.eq(static_cast<std::size_t>(u::min_element(v, std::greater<>{}) - v.begin()), mx, "min-element-cmp");
    }
    V dst(v.size(), 12345);
    auto const e = u::copy(v, dst.begin());
    c.check(dst == v && e == dst.end(), "copy", "copied sequence differs");
    V back;
    u::copy(l, std::back_inserter(back));
    c.eq(back, v, "copy-inserter");
    auto rev = v;
    u::reverse(rev);
    V want_rev;
    for (auto i = v.size(); i > 0; --i) want_rev.push_back(v[i - 1]);
    c.eq(rev, want_rev, "reverse");
    auto so = v;
    u::sort(so);
    c.eq(so, sorted(v), "sort");
    u::sort(so, std::greater<>{});
    auto sr = sorted(v);
    std::reverse(sr.begin(), sr.end());
    c.eq(so, sr, "sort-cmp");
    c.eq(v | u::to<std::vector>(), v, "ranges-to-vector");
    c.eq((l | u::to<std::deque>()), std::deque<int>(v.begin(), v.end()), "ranges-to-deque");
    c.eq((v | u::to<std::set>()), std::set<int>(v.begin(), v.end()), "ranges-to-set");
    // a map that accumulates
    soro::map<int, int> m;
    std::map<int, int> mm;
    for (auto const x : v) {
      u::insert_or(m, x, 1, [](int& have, int add) { have += add; });
      ++mm[x];
    }
    for (auto const& [kk, n] : mm) c.check(m.at(kk) == n, "insert-or", kk, " counted ", m.at(kk), " not ", n);
    c.check(m.size() == mm.size(), "insert-or", "size");
    c.stat("sequences");
  }
}

CASES(U06) {
  for (int round = 0; round < 10; ++round) {
    auto const a = some(c), b = some(c);
    if (a.size() > 1 && b.size() > 1) c.nontrivial();
    auto const sa = sorted(a), sb = sorted(b);
    auto const da = set_of(a), db = set_of(b);
    V un = da;
    un.insert(un.end(), db.begin(), db.end());
    un = set_of(un);
    c.eq(u::merge_unique(da, db), un, "merge-unique");
    c.eq(u::merge_unique(sa, sb), un, "merge-unique-duplicates");
    V inter;
    for (auto const x : da) {
      if (std::find(db.begin(), db.end(), x) != db.end()) inter.push_back(x);
    }
    auto const ov = !inter.empty();
    c.eq(u::overlap(sa, sb), ov, "overlap");
    c.eq(u::overlap(sb, sa), ov, "overlap");
    c.eq(u::overlap_non_sorted(a, b), ov, "overlap-non-sorted");
    c.eq(u::get_overlap(da, db), inter, "get-overlap");
    {
      // elements of a that occur in b, in the order of a
      V ua, ub;
      for (auto const x : a) {
        if (std::find(ua.begin(), ua.end(), x) == ua.end()) ua.push_back(x);
      }
      for (auto const x : b) {
        if (std::find(ub.begin(), ub.end(), x) == ub.end()) ub.push_back(x);
      }
      V want;
      for (auto const x : ua) {
        if (std::find(ub.begin(), ub.end(), x) != ub.end()) want.push_back(x);
      }
      c.eq(u::get_overlap_non_sorted(ua, ub), want, "get-overlap-non-sorted");
    }
    // multiset intersection: min of the counts
    V mi;
    for (auto const x : inter) {
      auto const n = std::min(std::count(a.begin(), a.end(), x), std::count(b.begin(), b.end(), x));
      for (long i = 0; i < n; ++i) mi.push_back(x);
    }
    auto ca = a, cb = b;
    c.eq(u::sort_and_intersect(ca, cb), mi, "sort-and-intersect");
    c.eq(ca, sa, "sort-and-intersect-sorts");
    c.eq(cb, sb, "sort-and-intersect-sorts");
    c.eq(u::intersect(sa, sb), mi, "intersect");
    V diff;
    for (auto const x : da) {
      if (std::find(db.begin(), db.end(), x) == db.end()) diff.push_back(x);
    }
    V got;
    u::set_difference(da, db, std::back_inserter(got));
    c.eq(got, diff, "set-difference");
    // many sets at once
    auto const k = c.r.chance(80) ? c.r.below(6) : c.r.below(20);
    std::vector<V> sets;
    V all;
    for (std::size_t i = 0; i < k; ++i) {
      sets.push_back(set_of(some(c, c.r.chance(90) ? 12 : 120)));
      all.insert(all.end(), sets.back().begin(), sets.back().end());
    }
    soro::vector<std::pair<V::const_iterator, V::const_iterator>> ranges;
    for (auto const& s : sets) ranges.emplace_back(s.cbegin(), s.cend());
    c.eq((u::multi_set_merge<V>(ranges)), set_of(all), "multi-set-merge", k, " sets");
    std::vector<std::set<int>> ss;
    for (auto const& s : sets) ss.emplace_back(s.begin(), s.end());
    soro::vector<std::pair<std::set<int>::const_iterator, std::set<int>::const_iterator>> rs;
    for (auto const& s : ss) rs.emplace_back(s.cbegin(), s.cend());
    c.eq((u::multi_set_merge<V>(rs)), set_of(all), "multi-set-merge-sets", k, " sets");
    // slices
    soro::vector<int> v(a.begin(), a.end());
    auto from = c.r.below(v.size() + 1), to = c.r.below(v.size() + 1);
    if (from > to) std::swap(from, to);
    auto const cut = [&](std::size_t f, std::size_t t) {
      V w;
      for (auto i = f; i < t; ++i) w.push_back(v[i]);
      return w;
    };
    auto const want = cut(from, to);
    c.eq(u::slice(std::as_const(v), from, to), want, "slice", from, "..", to);
    auto in_place = v;
    u::slice(in_place, from, to);
    c.eq(in_place, want, "slice-in-place", from, "..", to);
    auto const rr = u::slice_range(v, from, to);
    c.eq(V(rr.begin(), rr.end()), want, "slice-range", from, "..", to);
    auto cf = c.r.chance(50) ? from : v.size() + 1 + c.r.below(5);
    auto ct = c.r.chance(50) && cf <= v.size() ? to : v.size() + 1 + c.r.below(5);
    auto const ef = cf > v.size() ? 0 : cf;
    auto const et = ct > v.size() ? v.size() : ct;
    auto const cw = cut(ef, et);
    c.eq(u::slice_clasp(std::as_const(v), cf, ct), cw, "slice-clasp", cf, "..", ct);
    auto cip = v;
    u::slice_clasp(cip, cf, ct);
    c.eq(cip, cw, "slice-clasp-in-place", cf, "..", ct);
    auto const cr = u::slice_clasp_range(v, cf, ct);
    c.eq(V(cr.begin(), cr.end()), cw, "slice-clasp-range", cf, "..", ct);
    c.stat("set_pairs");
  }
}

CASES(U06) {  // text helpers
  static char const alphabet[] = "ab,;\xc3\xff";
  auto const text = [&](std::size_t max) {
    std::string s;
    auto const letters = c.r.chance(70) ? 4U : c.r.chance(50) ? 2U : 6U;
    for (auto n = c.r.below(max + 1); n > 0; --n) s += alphabet[c.r.below(letters)];
    return s;
  };
  for (int i = 0; i < 20; ++i) {
    auto const s = text(c.r.chance(90) ? 20 : 300);
    static char const* const delims[] = {",;", "ab", "aa", "aba", "aab", ",,,", "abab"};
    auto const d = c.r.chance(50) ? std::string{","} : std::string{delims[c.r.below(7)]};
    c.sig(s + d);
    if (s.size() > 3) c.nontrivial();
    auto const got = u::split(s, d);
    V dummy;
    if (s.empty()) {
      c.check(got.empty(), "split-empty", "pieces of nothing");
    } else {
      std::string joined;
      bool clean = true;
      for (std::size_t k = 0; k < got.size(); ++k) {
        if (k > 0) joined += d;
        joined += got[k];
        clean &= got[k].find(d) == std::string_view::npos;
        clean &= got[k].data() >= s.data() && got[k].data() + got[k].size() <= s.data() + s.size();
      }
      c.eq(joined, s, "split-joins-back", "delimiter '", d, "'");
      // every piece ends at the first delimiter behind its start
      std::vector<std::string> want{""};
      for (std::size_t k = 0; k < s.size();) {
        if (s.compare(k, d.size(), d) == 0) {
          want.emplace_back();
          k += d.size();
        } else {
          want.back() += s[k++];
        }
      }
      c.check(want == std::vector<std::string>(got.begin(), got.end()), "split-pieces", "'", s, "' at '", d, "'");
      c.check(clean, "split-piece", "a piece of '", s, "' contains the delimiter or other memory");
    }
    // comparisons look only at the text they are given
    auto const t = c.r.chance(50) ? s : text(20);
    auto const tail = text(4);
    std::string const s_tail = s + tail, t_tail = t + text(4);
    std::string_view const vs{s_tail.data(), s.size()}, vt{t_tail.data(), t.size()};
    std::unique_ptr<char[]> const es{new char[s.size() + 0]};
    std::memcpy(es.get(), s.data(), s.size());
    std::string_view const ev{es.get(), s.size()};
    bool const want = s == t;
    c.eq(u::equal(vs, vt), want, "equal-views", s, " ", t);
    c.eq(u::equal(ev, vt), want, "equal-views", s, " ", t);
    c.eq(u::equal(ev, t.c_str()), want, "equal-view-cstr", s, " ", t);
    c.eq(u::equal(t.c_str(), ev), want, "equal-cstr-view", s, " ", t);
    c.eq(u::equal(s.c_str(), t.c_str()), want, "equal-cstr", s, " ", t);
    c.eq(u::equal(soro::string(s), t.c_str()), want, "equal-string-cstr", s, " ", t);
    c.eq(u::equal(s.c_str(), soro::string(t)), want, "equal-cstr-string", s, " ", t);
    c.eq(u::starts_with(s.c_str(), t.c_str()), s.rfind(t, 0) == 0, "starts-with", s, " ", t);
    c.check(u::starts_with(s_tail.c_str(), s.c_str()), "starts-with", s_tail, " ", s);
    if (want) {
      c.check(u::str_hash(s.c_str()) == u::str_hash(t), "str-hash-equal", s);
    } else {
      c.check(u::str_hash(s) != u::str_hash(t) || s.size() > 6, "str-hash-collision", s, " ", t);
    }
    c.check(u::str_hash(s.c_str(), s.size()) == u::str_hash(s), "str-hash-spelling", s);
    // text with a NUL inside is longer than it looks
    auto const z1 = s + '\0' + tail, z2 = s + '\0' + text(3);
    c.eq(u::equal(std::string_view{z1}, std::string_view{z2}), z1 == z2, "equal-views-nul", tail);
    c.check((u::str_hash(z1) == u::str_hash(z2)) == (z1 == z2), "str-hash-nul", tail);
    c.check(u::str_hash(z1.data(), z1.size()) == u::str_hash(z1), "str-hash-spelling", s);
    c.stat("texts");
  }
}

}  // namespace
