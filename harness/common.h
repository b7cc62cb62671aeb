// Shared by all harnesses: seeded case generation, reporting, case registry.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

struct rng {
  explicit rng(std::uint64_t s) : s_{s} {}
  std::uint64_t next() {
    s_ += 0x9E3779B97F4A7C15ull;
    auto z = s_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // [0, n)
  std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
  // [lo, hi]
  std::int64_t in(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(
                    below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  bool chance(unsigned pct) { return below(100) < pct; }
  double real(double lo, double hi) {
    return lo + (hi - lo) * (static_cast<double>(next() >> 11) / 9007199254740992.0);
  }
  template <typename V>
  auto& pick(V& v) {
    return v[below(v.size())];
  }
  template <typename V>
  void shuffle(V& v) {
    for (auto i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
  std::uint64_t s_;
};

// What one case reports.
struct ctx {
  ctx(std::uint64_t seed, std::uint64_t idx, bool thorough)
      : r{seed}, case_{idx}, thorough_{thorough} {}

  // An oracle saw a violation. `key` is stable and specific.
  void fail(std::string const& key, std::string const& detail) {
    if (++n_fail_ > 20) return;
    std::string d = detail.substr(0, 1500);
    for (auto& c : d) {
      if (c == '\n' || c == '\r') c = ' ';
    }
    std::printf("VIOL|%s|%llu|%s\n", key.c_str(),
                static_cast<unsigned long long>(case_), d.c_str());
    std::fflush(stdout);
  }

  template <typename... Args>
  bool check(bool ok, char const* key, Args const&... args) {
    ++checks_;
    if (!ok) {
      std::ostringstream ss;
      (ss << ... << args);
      fail(key, ss.str());
    }
    return ok;
  }

  template <typename A, typename B, typename... Args>
  bool eq(A const& a, B const& b, char const* key, Args const&... args) {
    ++checks_;
    bool const ok = a == b;
    if (!ok) {
      std::ostringstream ss;
      (ss << ... << args);
      print(ss << " got ", a);
      print(ss << " expected ", b);
      fail(key, ss.str());
    }
    return ok;
  }

  template <typename S, typename T>
  static void print(S&& ss, T const& t) {
    if constexpr (requires { ss << t; }) {
      ss << t;
    } else if constexpr (requires { t.begin(); t.end(); }) {
      ss << "{";
      std::size_t n = 0;
      for (auto const& x : t) {
        if (++n > 40) {
          ss << "...";
          break;
        }
        print(ss, x);
        ss << ",";
      }
      ss << "}";
    } else if constexpr (requires { t.first; t.second; }) {
      ss << "<";
      print(ss, t.first);
      ss << ",";
      print(ss, t.second);
      ss << ">";
    } else {
      ss << "?";
    }
  }

  // identity of the case for counting distinct ones
  void sig(std::uint64_t v) {
    sig_ ^= v + 0x9E3779B97F4A7C15ull + (sig_ << 6) + (sig_ >> 2);
  }
  void sig(std::string const& s) { sig(std::hash<std::string>{}(s)); }
  void nontrivial() { nontrivial_ = true; }
  void note(std::string const& s) {
    if (sample_.size() < 600) sample_ += s;
  }
  void stat(char const* name, std::uint64_t v = 1) { stats_[name] += v; }

  rng r;
  std::uint64_t case_;
  bool thorough_;
  std::uint64_t sig_{0};
  bool nontrivial_{false};
  std::uint64_t checks_{0};
  std::string sample_;
  std::map<std::string, std::uint64_t> stats_;
  unsigned n_fail_{0};
};

using case_fn = void (*)(ctx&);

struct registry {
  static registry& get() {
    static registry r;
    return r;
  }
  std::map<std::string, std::vector<case_fn>> fns_;
};

struct reg {
  reg(char const* prop, case_fn f) { registry::get().fns_[prop].push_back(f); }
};

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// CASES(U01) { ... uses c (ctx&) ... }
#define CASES(prop)                                                  \
  static void VH_CAT(vh_case_, __LINE__)(::vh::ctx & c);             \
  static ::vh::reg VH_CAT(vh_reg_, __LINE__){#prop,                  \
                                             &VH_CAT(vh_case_, __LINE__)}; \
  static void VH_CAT(vh_case_, __LINE__)(::vh::ctx & c)

int run_main(int argc, char** argv);

extern std::string scratch_dir;  // exclusive to this process
extern bool no_catch;

}  // namespace vh
