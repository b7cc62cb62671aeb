#pragma once
#include <string>
#include <utility>
namespace utl {
struct scoped_timer {
  explicit scoped_timer(std::string name) : name_{std::move(name)} {}
  template <typename... A> void print(A&&...) const {}
  std::string name_;
};
}
