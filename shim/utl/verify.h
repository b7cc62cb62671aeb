#pragma once
#include <stdexcept>
#include <string>
#include <string_view>
#include "fmt/format.h"
#include "fmt/ostream.h"
#if __has_include("fmt/std.h")
#include "fmt/std.h"
#endif
namespace utl {
template <typename... Args>
std::string shim_fmt(std::string_view f, Args&&...) { return std::string{f}; }
// the real utl::fail throws; `throw utl::fail(...)` works with both forms
template <typename... Args>
[[noreturn]] std::runtime_error fail_throw(std::string_view f, Args&&...) { throw std::runtime_error{std::string{f}}; }
template <typename Msg, typename... Args>
std::runtime_error fail(Msg&& f, Args&&...) { return std::runtime_error{std::string{f}}; }
template <typename Msg, typename... Args>
void verify(bool const b, Msg&& msg, Args&&...) { if (!b) throw std::runtime_error{std::string{msg}}; }
template <typename B, typename Msg, typename... Args>
  requires(!std::is_same_v<std::decay_t<B>, bool>)
void verify(B const& b, Msg&& msg, Args&&...) { if (!static_cast<bool>(b)) throw std::runtime_error{std::string{msg}}; }
template <typename Ex, typename Msg, typename... Args>
void verify_ex(bool const b, Ex ex, Msg&&...) { if (!b) throw ex; }
}
