#pragma once
namespace net {
struct stop_handler {
  template <typename C, typename F> stop_handler(C&, F&&) {}
};
}  // namespace net
