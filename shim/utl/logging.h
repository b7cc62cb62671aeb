#pragma once
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
namespace utl {
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
// evaluates every logged expression (so that a fault in one is seen), prints nothing
struct shim_log {
  template <typename T> shim_log& operator<<(T&& t) { s_ << std::forward<T>(t); return *this; }
  shim_log& operator<<(std::ostream& (*f)(std::ostream&)) { s_ << f; return *this; }
  ~shim_log() { if (verbose()) std::clog << s_.str() << "\n"; }
  static bool& verbose() { static bool v = false; return v; }
  std::ostringstream s_;
};
}
#define uLOG(lvl) ((void)(lvl), ::utl::shim_log{})
