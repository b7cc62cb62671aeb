// U12: type lists, tuples and template helpers. Types are computed by the code
// under test and judged at run time, so that a wrong one is reported.
#include "common.h"

#include <filesystem>
#include <list>
#include <forward_list>
#include <span>
#include <tuple>

#include "soro/base/soro_types.h"
#include "soro/utls/concepts/arithmetic.h"
#include "soro/utls/concepts/invocable_returns.h"
#include "soro/utls/concepts/is_any_of.h"
#include "soro/utls/concepts/iterable_helpers.h"
#include "soro/utls/concepts/yields.h"
#include "soro/utls/function_alias.h"
#include "soro/utls/ranges/to.h"
#include "soro/utls/strong_types/type_list.h"
#include "soro/utls/template/decay.h"
#include "soro/utls/template/is_vector.h"
#include "soro/utls/template/type_at_position.h"
#include "soro/utls/tuple/apply_at.h"
#include "soro/utls/tuple/find_if.h"
#include "soro/utls/tuple/for_each.h"
#include "soro/utls/tuple/is_tuple.h"
#include "soro/utls/tuple/slice.h"

namespace {

namespace u = soro::utls;
template <typename... T>
using tl = u::type_list<T...>;
template <typename A, typename B>
constexpr bool same = std::is_same_v<A, B>;

template <int I>
struct k {};

// --- type lists against lists of numbers --- //

template <typename L>
struct ids {
  static std::vector<int> get() { return {-999}; }  // not a list of these
};
template <int... I>
struct ids<tl<k<I>...>> {
  static std::vector<int> get() { return {I...}; }
};

template <typename L, int N>
void counts(vh::ctx& c) {
  auto const v = ids<L>::get();
  c.eq(std::size_t{u::count_v<k<N>, L>}, static_cast<std::size_t>(std::count(v.begin(), v.end(), N)), "list-count");
  c.eq(std::size_t{u::count_type<k<N>, L>::value}, static_cast<std::size_t>(std::count(v.begin(), v.end(), N)), "list-count");
  auto p = v;
  p.insert(p.begin(), N);
  c.eq(ids<u::push_front_t<k<N>, L>>::get(), p, "list-push-front");
  auto once = v;
  if (auto it = std::find(once.begin(), once.end(), N); it != once.end()) once.erase(it);
  c.eq(ids<u::remove_once_t<k<N>, L>>::get(), once, "list-remove-once");
  auto const times = [&](std::size_t t) {
    auto w = v;
    for (std::size_t i = 0; i < t; ++i) {
      if (auto it = std::find(w.begin(), w.end(), N); it != w.end()) w.erase(it);
    }
    return w;
  };
  c.eq(ids<u::remove_times_t<0, k<N>, L>>::get(), times(0), "list-remove-0");
  c.eq(ids<u::remove_times_t<1, k<N>, L>>::get(), times(1), "list-remove-1");
  c.eq(ids<u::remove_times_t<2, k<N>, L>>::get(), times(2), "list-remove-2");
  c.eq(ids<u::remove_times_t<3, k<N>, L>>::get(), times(3), "list-remove-3");
  c.eq(ids<u::remove_times_t<9, k<N>, L>>::get(), times(9), "list-remove-9");
}

template <typename L>
void list(vh::ctx& c) {
  counts<L, 0>(c);
  counts<L, 1>(c);
  counts<L, 2>(c);
  counts<L, 3>(c);
  auto const v = ids<L>::get();
  auto const rep = [&](int n) {
    std::vector<int> r;
    while (n-- > 0) r.insert(r.end(), v.begin(), v.end());
    return r;
  };
  c.eq(ids<u::concat_times_t<0, L>>::get(), rep(0), "list-repeat-0");
  c.eq(ids<u::concat_times_t<1, L>>::get(), rep(1), "list-repeat-1");
  c.eq(ids<u::concat_times_t<2, L>>::get(), rep(2), "list-repeat-2");
  c.eq(ids<u::concat_times_t<3, L>>::get(), rep(3), "list-repeat-3");
  c.eq(ids<u::concat_times_t<4, L>>::get(), rep(4), "list-repeat-4");
  c.eq(ids<u::concat_times_t<5, L>>::get(), rep(5), "list-repeat-5");
  c.eq(ids<u::concat_times_t<6, L>>::get(), rep(6), "list-repeat-6");
  c.eq(ids<u::concat_times_t<7, L>>::get(), rep(7), "list-repeat-7");
  c.eq(ids<u::concat_times_t<9, L>>::get(), rep(9), "list-repeat-9");
  c.check(same<u::push_front_t<void, L>, L>, "list-push-nothing");
}

template <typename A, typename B>
void lists(vh::ctx& c) {
  auto v = ids<A>::get();
  auto const w = ids<B>::get();
  v.insert(v.end(), w.begin(), w.end());
  c.eq(ids<u::concat_t<A, B>>::get(), v, "list-concat");
}

using l0 = tl<>;
using l1 = tl<k<1>>;
using l2 = tl<k<0>, k<1>>;
using l3 = tl<k<2>, k<2>, k<2>>;
using l4 = tl<k<0>, k<1>, k<0>, k<2>, k<1>>;
using l5 = tl<k<3>, k<0>, k<3>, k<3>, k<1>, k<0>, k<2>>;
using l6 = tl<k<1>, k<2>, k<1>, k<2>, k<1>, k<2>, k<1>, k<2>>;

// --- slices --- //

using wide = std::tuple<int, std::string, double, char, std::vector<int>, unsigned, std::string>;

template <std::size_t From, std::size_t To, std::size_t... I>
void slice_is(vh::ctx& c, wide const& t, std::index_sequence<I...>) {
  auto const s = u::tuple::slice<From, To>(t);
  using expected = std::tuple<std::tuple_element_t<From + I, wide>...>;
  c.check(same<std::remove_const_t<decltype(s)>, expected>, "slice-type", From, '-', To);
  if constexpr (same<std::remove_const_t<decltype(s)>, expected>) {
    c.check(s == expected{std::get<From + I>(t)...}, "slice-values", From, '-', To);
  }
  using seq = decltype(u::tuple::detail::make_integer_sequence<std::size_t, From, To>());
  c.check(same<seq, std::index_sequence<(From + I)...>>, "slice-indices", From, '-', To);
}

template <std::size_t From, std::size_t To>
void slice_one(vh::ctx& c, wide const& t) {
  if constexpr (From <= To) slice_is<From, To>(c, t, std::make_index_sequence<To - From>{});
}

template <std::size_t From, std::size_t... To>
void slice_row(vh::ctx& c, wide const& t, std::index_sequence<To...>) {
  (slice_one<From, To>(c, t), ...);
}
template <std::size_t... From>
void slice_all(vh::ctx& c, wide const& t, std::index_sequence<From...>) {
  (slice_row<From>(c, t, std::make_index_sequence<8>{}), ...);
}

CASES(U12) {
  if (c.case_ < 2) {
    list<l0>(c), list<l1>(c), list<l2>(c), list<l3>(c), list<l4>(c), list<l5>(c), list<l6>(c);
    lists<l0, l0>(c), lists<l0, l4>(c), lists<l4, l0>(c), lists<l4, l5>(c), lists<l5, l6>(c), lists<l3, l2>(c);
  }
  wide t{static_cast<int>(c.r.in(-9, 9)), std::string(c.r.below(40), 'x'), c.r.real(0, 1), 'c',
         std::vector<int>(c.r.below(5), 7), static_cast<unsigned>(c.r.below(100)), std::string(c.r.below(40), 'y')};
  auto const copy = t;
  slice_all(c, t, std::make_index_sequence<8>{});
  c.check(t == copy, "slice-keeps-source");
  c.sig(c.r.s_);
  c.stat("slices");
  c.nontrivial();
}

// --- run time access to tuples --- //

template <typename T>
void tuples(vh::ctx& c, T t, std::vector<long> v) {
  namespace ut = u::tuple;
  T const ct = t;
  auto const n = v.size();
  std::vector<long> seen;
  ut::for_each(ct, [&](auto const& x) { seen.push_back(static_cast<long>(x)); });
  c.eq(seen, v, "tuple-for-each");
  ut::for_each(t, [](auto& x) { x += 1; });
  for (auto& x : v) ++x;
  seen.clear();
  ut::for_each(t, [&](auto& x) { seen.push_back(static_cast<long>(x)); });
  c.eq(seen, v, "tuple-for-each-modify");
  for (std::size_t i = 0; i < n + 3; ++i) {
    int calls = 0, const_calls = 0;
    bool thrown = false;
    try {
      ut::apply_at(t, i, [&](auto& x) {
        ++calls;
        x += 10;
      });
      if (i < n) v[i] += 10;
    } catch (std::exception const&) {
      thrown = true;
    }
    bool const_thrown = false;
    try {
      T const now = t;
      ut::apply_at(now, i, [&](auto const& x) {
        ++const_calls;
        c.eq(static_cast<long>(x), v[i], "tuple-apply-at-value", i);
      });
    } catch (std::exception const&) {
      const_thrown = true;
    }
    c.eq(const_thrown, i >= n, "tuple-apply-at-outside", "const ", i);
    c.eq(calls, i < n ? 1 : 0, "tuple-apply-at-once", i);
    c.eq(const_calls, i < n ? 1 : 0, "tuple-apply-at-once", "const ", i);
    c.eq(thrown, i >= n, "tuple-apply-at-outside", i);
  }
  // far outside, through a tuple that may be changed and one that may not
  for (int j = 0; j < 4; ++j) {
    auto const at = j == 0 ? ~std::size_t{0} : (std::size_t{1} << c.r.in(4, 63)) + c.r.below(16);
    int calls = 0, thrown = 0;
    try {
      ut::apply_at(t, at, [&](auto&) { ++calls; });
    } catch (std::exception const&) {
      ++thrown;
    }
    T const now = t;
    try {
      ut::apply_at(now, at, [&](auto const&) { ++calls; });
    } catch (std::exception const&) {
      ++thrown;
    }
    c.check(calls == 0 && thrown == 2, "tuple-apply-at-outside", at, ' ', calls, ' ', thrown);
  }
  seen.clear();
  ut::for_each(t, [&](auto& x) { seen.push_back(static_cast<long>(x)); });
  c.eq(seen, v, "tuple-apply-at-modify");
  for (int j = 0; j < 6; ++j) {
    long const needle = j == 0 ? -1 : v[c.r.below(n)];
    std::size_t calls = 0;
    auto const pos = ut::find_if(t, [&](auto const& x) {
      ++calls;
      return static_cast<long>(x) == needle;
    });
    auto const want = static_cast<std::size_t>(std::find(v.begin(), v.end(), needle) - v.begin());
    c.eq(pos, want, "tuple-find-if");
    c.eq(calls, std::min(want + 1, n), "tuple-find-if-stops");
  }
  c.check(ut::is_tuple_v<T> && ut::is_tuple_v<T const>, "is-tuple");
}

template <typename A, typename B>
  requires u::is_any_of<A, B, int>
int any_overload(int) { return 1; }

int base_fn(int a, int b) { return a * 10 + b; }
int& base_ref(int& a) { return a; }
int base_noexcept(int a) noexcept { return a; }
FUN_ALIAS(alias_fn, base_fn)
FUN_ALIAS(alias_ref, base_ref)
FUN_ALIAS(alias_noexcept, base_noexcept)
template <typename T, typename A>
T base_cast(A&& a) { return static_cast<T>(a); }
FUN_ALIAS_TEMPLATE(alias_cast, base_cast, (typename, T))

CASES(U12) {
  std::vector<long> v;
  for (int i = 0; i < 12; ++i) v.push_back(c.r.in(0, c.r.chance(40) ? 3 : 1000));
  auto const all = v;
  v.resize(5);
  switch (c.r.below(5)) {
    case 4:
      tuples(c,
             std::tuple<long, int, long, int, short, long, double, int, unsigned, long, int, long>{
                 all[0], int(all[1]), all[2], int(all[3]), short(all[4]), all[5], double(all[6]), int(all[7]), unsigned(all[8]), all[9],
                 int(all[10]), all[11]},
             all);
      break;
    case 0: tuples(c, soro::tuple<int, long, unsigned, int, long>{int(v[0]), v[1], unsigned(v[2]), int(v[3]), v[4]}, v); break;
    case 1: tuples(c, std::tuple<long>{v[0]}, {v[0]}); break;
    case 2: tuples(c, std::tuple<int, unsigned>{int(v[0]), unsigned(v[1])}, {v[0], v[1]}); break;
    default: tuples(c, std::tuple<long, int, short, long, double>{v[0], int(v[1]), short(v[2]), v[3], double(v[4])}, v);
  }
  c.sig(c.r.s_);

  // templates and concepts
  c.check(!u::tuple::is_tuple_v<int> && !u::tuple::is_tuple_v<std::vector<int>>, "is-tuple-other");
  c.check(same<u::decay_t<int const>, int> && same<u::decay_t<int&>, int> && same<u::decay_t<int&&>, int> &&
              same<u::decay_t<int>, int>,
          "decay");
  c.check(same<u::decay_t<int const&>, int> && same<u::decay_t<std::string const&>, std::string>, "decay-const-ref");
  c.check(same<u::type_at_position_t<0, int, char, long>, int> && same<u::type_at_position_t<1, int, char, long>, char> &&
              same<u::type_at_position_t<2, int, char, long>, long> && same<u::first_t<char, int>, char> &&
              same<u::first_t<char>, char>,
          "type-at-position");
  c.check(u::is_vector_v<soro::vector<int>> && !u::is_vector_v<int>, "is-vector");
  c.check(u::arithmetic<int> && u::arithmetic<double> && u::arithmetic<char> && u::arithmetic<float> &&
              !u::arithmetic<std::string> && !u::arithmetic<int*>,
          "concept-arithmetic");
  c.check(u::is_any_of<int, char, int> && u::is_any_of<int, int> && !u::is_any_of<int, char, long> && !u::is_any_of<int> &&
              !u::is_any_of<int, int const>,
          "concept-is-any-of");
  auto const f = [](int) { return true; };
  c.check(u::invocable_returns<decltype(f), bool, int> && !u::invocable_returns<decltype(f), int, int> &&
              !u::invocable_returns<decltype(f), bool, std::string> && !u::invocable_returns<decltype(f), bool>,
          "concept-invocable-returns");
  c.check(u::is_input_iterable<std::vector<int>> && u::is_forward_iterable<std::forward_list<int>> &&
              !u::is_bidirectional_iterable<std::forward_list<int>> && u::is_bidirectional_iterable<std::list<int>> &&
              !u::is_random_access_iterable<std::list<int>> && u::is_random_access_iterable<std::vector<int>> &&
              u::is_contiguous_iterable<std::vector<int>> && !u::is_contiguous_iterable<std::set<int>> &&
              !u::is_input_iterable<int>,
          "concept-iterables");
  c.check(u::yields<int, std::vector<int>> && !u::yields<long, std::vector<int>> && u::yields<char, std::string>, "concept-yields");
  auto const g = [](int const& x) { return x > 1; };
  c.check(u::predicate_yields<bool, std::vector<int>, decltype(g)> && !u::predicate_yields<int, std::vector<int>, decltype(g)>,
          "concept-predicate-yields");

  // an alias is the function: same results, references and exception promises
  auto const a = static_cast<int>(c.r.in(0, 100)), b = static_cast<int>(c.r.in(0, 9));
  c.eq(alias_fn(a, b), base_fn(a, b), "alias-result");
  int x = a;
  c.check(&alias_ref(x) == &x && same<decltype(alias_ref(x)), int&>, "alias-reference");
  c.check(noexcept(alias_noexcept(a)) && !noexcept(alias_fn(a, b)), "alias-noexcept");
  c.eq(alias_cast<long>(a), static_cast<long>(a), "alias-template");
  c.check(same<decltype(alias_cast<long>(a)), long>, "alias-template-type");
  c.stat("tuples");
  c.nontrivial();
}

}  // namespace
