#pragma once
#include <string>
#include <string_view>
namespace utl {
struct cstr {
  std::string to_str() const { return std::string{s_}; }
  std::string_view view() const { return s_; }
  std::size_t length() const { return s_.size(); }
  std::string_view s_;
};
}
