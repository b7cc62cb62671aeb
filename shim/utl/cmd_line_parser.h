#pragma once
#include <algorithm>
#include <filesystem>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace utl {
struct required {};
template <std::size_t N>
struct shim_text {
  char s_[N];
  constexpr shim_text(char const (&s)[N]) { std::copy_n(s, N, s_); }
};
template <shim_text S> struct shim_long { static constexpr char const* name = S.s_; };
template <shim_text S> struct shim_short {};
template <shim_text S> struct shim_desc {};
#define UTL_LONG(s) ::utl::shim_long<s>
#define UTL_SHORT(s) ::utl::shim_short<s>
#define UTL_DESC(s) ::utl::shim_desc<s>
struct shim_flag {
  std::string name_;
  bool required_;
  std::function<void(std::string const&)> set_;
};
inline std::vector<shim_flag>*& shim_flags() {
  static thread_local std::vector<shim_flag>* v = nullptr;
  return v;
}
template <typename T, typename... Tags>
struct cmd_line_flag {
  template <typename U> static constexpr char const* name_of() {
    if constexpr (requires { U::name; }) return U::name; else return nullptr;
  }
  cmd_line_flag() { announce(); }
  cmd_line_flag(T t) : t_{std::move(t)} { announce(); }
  template <typename U> requires(std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, cmd_line_flag>)
  cmd_line_flag(U&& u) : t_(std::forward<U>(u)) { announce(); }
  T const& val() const { return t_; }
  operator T const&() const { return t_; }
  T const& operator*() const { return t_; }
  void announce() {
    if (shim_flags() == nullptr) return;
    std::string n;
    ((name_of<Tags>() != nullptr ? (void)(n = name_of<Tags>()) : (void)0), ...);
    shim_flags()->push_back({n, (std::is_same_v<Tags, required> || ...), [this](std::string const& s) {
      if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::filesystem::path>) t_ = s;
      else { std::istringstream i{s}; i >> t_; }
    }});
  }
  T t_{};
};
template <typename T>
T parse(int argc, char const** argv) {
  std::vector<shim_flag> flags;
  shim_flags() = &flags;
  T t;
  shim_flags() = nullptr;
  std::vector<bool> seen(flags.size());
  for (int i = 1; i < argc; i += 2) {
    bool known = false;
    for (std::size_t k = 0; k < flags.size(); ++k) {
      if (flags[k].name_ != argv[i]) continue;
      if (i + 1 >= argc) throw std::runtime_error("missing value");
      flags[k].set_(argv[i + 1]);
      seen[k] = known = true;
    }
    if (!known) throw std::runtime_error("unknown flag");
  }
  for (std::size_t k = 0; k < flags.size(); ++k) {
    if (flags[k].required_ && !seen[k]) throw std::runtime_error("missing flag");
  }
  return t;
}
template <typename T> std::string description() { return "flags"; }
template <typename T> std::string print_flags(T const&) { return "flags"; }
}  // namespace utl
