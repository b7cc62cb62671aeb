#pragma once
// stands in for the tile library: no map is rendered
#include <optional>
#include <string>
#include <vector>
namespace lmdb { struct env {}; }
namespace tiles {
constexpr unsigned long kDefaultSize = 0;
inline lmdb::env make_tile_database(char const*, unsigned long) { return {}; }
struct tile_db_handle { explicit tile_db_handle(lmdb::env&) {} };
struct render_ctx {};
inline render_ctx make_render_ctx(tile_db_handle&) { return {}; }
struct pack_handle { explicit pack_handle(char const*) {} };
struct perf_counter {};
template <typename Tile>
std::optional<std::string> get_tile(tile_db_handle&, pack_handle&, render_ctx&, Tile const&, perf_counter&) { return {}; }
}  // namespace tiles
