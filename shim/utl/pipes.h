#pragma once
#include <utility>
namespace utl {
template <typename F> struct for_each_t { F f_; };
template <typename F> auto for_each(F&& f) { return for_each_t<std::decay_t<F>>{std::forward<F>(f)}; }
template <typename R, typename F>
void operator|(R&& r, for_each_t<F> f) { for (auto&& x : r) f.f_(x); }
}
