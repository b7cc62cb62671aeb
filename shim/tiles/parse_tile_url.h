#pragma once
#include <string>
#include <vector>
namespace tiles { inline std::vector<std::string> url_match_to_tile(std::vector<std::string> const& p) { return p; } }
