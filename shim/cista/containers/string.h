#pragma once
#include <string>
#include <string_view>
namespace cista { namespace offset { using std::string; using std::string_view; } namespace raw { using std::string; using std::string_view; } }

// only named, never made
namespace cista { template <typename P> struct basic_string { std::string_view view() const { return {}; } }; }
