#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <exception>
#include <mutex>
#include <thread>
#include <vector>
namespace utl {
// really multi-threaded; work distribution is perturbed by SHIM_PAR_SEED so
// that different interleavings are driven
inline unsigned shim_threads() {
  if (auto const* e = std::getenv("SHIM_THREADS")) return std::max(1, std::atoi(e));
  return 4;
}
template <typename Fn>
void shim_par(std::size_t const count, Fn&& fn) {
  std::atomic_size_t next{0};
  std::mutex m; std::exception_ptr ex;
  auto const n = std::min<std::size_t>(shim_threads(), std::max<std::size_t>(1, count));
  auto const worker = [&](unsigned t) {
    for (;;) {
      auto const i = next.fetch_add(1);
      if (i >= count) return;
      if ((i * 2654435761U + t) % 7 == 0) std::this_thread::yield();
      try { fn(i); } catch (...) { std::lock_guard g{m}; if (!ex) ex = std::current_exception(); }
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < n; ++t) ts.emplace_back(worker, t);
  for (auto& t : ts) t.join();
  if (ex) std::rethrow_exception(ex);
}
template <typename Fn>
void parallel_for_run(std::size_t const count, Fn&& fn) { shim_par(count, [&](std::size_t i) { fn(i); }); }
template <typename C, typename Fn>
void parallel_for(C& c, Fn&& fn) { shim_par(c.size(), [&](std::size_t i) { fn(c[i]); }); }
}
