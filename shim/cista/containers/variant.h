#pragma once
#include <type_traits>
#include <utility>
#include <variant>
namespace cista {
template <typename... T>
struct variant {
  using base = std::variant<T...>;
  variant() = default;
  template <typename Arg>
    requires(!std::is_same_v<std::decay_t<Arg>, variant> && (std::is_same_v<std::decay_t<Arg>, T> || ...))
  variant(Arg&& a) : v_{std::forward<Arg>(a)} {}
  template <typename Arg>
    requires(!std::is_same_v<std::decay_t<Arg>, variant> && (std::is_same_v<std::decay_t<Arg>, T> || ...))
  variant& operator=(Arg&& a) { v_ = std::forward<Arg>(a); return *this; }
  template <typename A, typename... Args>
  A& emplace(Args&&... args) {
    if constexpr (std::is_constructible_v<A, Args...>) return v_.template emplace<A>(std::forward<Args>(args)...);
    else return v_.template emplace<A>(A{std::forward<Args>(args)...});
  }
  // mis-typed access is reported as bad_variant_access (undefined in cista)
  template <typename A> A& as() { return std::get<A>(v_); }
  template <typename A> A const& as() const { return std::get<A>(v_); }
  template <typename F> decltype(auto) apply(F&& f) {
    if constexpr ((std::is_invocable_v<F, T&> && ...)) {
      return std::visit(std::forward<F>(f), v_);
    } else {
      apply_some(f, *this);
    }
  }
  template <typename F> decltype(auto) apply(F&& f) const {
    if constexpr ((std::is_invocable_v<F, T const&> && ...)) {
      return std::visit(std::forward<F>(f), v_);
    } else {
      apply_some(f, *this);
    }
  }
  // alternatives the functor has nothing for are passed over
  template <typename F, typename V> static void apply_some(F& f, V& v) {
    std::visit(
        [&](auto& x) {
          if constexpr (std::is_invocable_v<F&, decltype(x)>) f(x);
        },
        v.v_);
  }
  std::size_t index() const { return v_.index(); }
  bool valid() const { return true; }
  base v_;
};
template <typename A, typename... T>
bool holds_alternative(variant<T...> const& v) { return std::holds_alternative<A>(v.v_); }
template <typename A, typename... T>
A const& get(variant<T...> const& v) { return v.template as<A>(); }
template <typename A, typename... T>
A& get(variant<T...>& v) { return v.template as<A>(); }
namespace offset { using cista::variant; }
namespace raw { using cista::variant; }
}  // namespace cista
namespace std {
template <typename A, typename... T>
A const& get(cista::variant<T...> const& v) { return v.template as<A>(); }
template <typename A, typename... T>
A& get(cista::variant<T...>& v) { return v.template as<A>(); }
template <typename A, typename... T>
bool holds_alternative(cista::variant<T...> const& v) { return cista::holds_alternative<A>(v); }
}
