// U10: error codes, results, error statistics, assertions
#include "common.h"

#include <thread>

#include "soro/base/error.h"
#include "soro/rolling_stock/rolling_stock_error.h"
#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/route_transform_error.h"
#include "soro/timetable/timetable_error.h"
#include "soro/utls/result.h"
#include "soro/utls/sassert.h"
#include "soro/utls/statistics.h"

namespace {

namespace e = soro::error;
namespace u = soro::utls;

struct known {
  std::error_code code_;
  char const* category_;
  int value_;
  char const* message_;
};

std::vector<known> all() {
  return {
      {e::make_error_code(e::rolling_stock::TRACTION_VEHICLE_NOT_FOUND), "rs", 1, "could not find rolling stock vehicle"},
      {e::make_error_code(e::timetable::UNKNOWN_SOURCE_TYPE), "tt", 1, "could not determine source type for timetable"},
      {e::make_error_code(e::route_transform::NO_FIRST_IR), "route_transform", 1, "could not find first interlocking route"},
      {e::make_error_code(e::route_transform::NO_UNIQUE_FIRST_IR), "route_transform", 2, "could not find unique first interlocking route"},
      {e::make_error_code(e::route_transform::NO_IR), "route_transform", 3, "could not find interlocking route"},
      {e::make_error_code(e::route_transform::NO_UNIQUE_IR), "route_transform", 4, "could not find unique interlocking route"},
      {e::make_error_code(e::route_transform::HALT_IN_SEQUENCE_BUT_NOT_IN_STATION_ROUTE), "route_transform", 5, "halt in sequence but not in station route"},
      {e::make_error_code(e::kss::STATION_NOT_FOUND), "kss", 1, "could not find station from timetable in infrastructure"},
      {e::make_error_code(e::kss::STATION_ROUTE_NOT_FOUND), "kss", 2, "could not find station route used in timetable in infrastructure"},
      {e::make_error_code(e::kss::WORKED_ON_TRAIN), "kss", 3, "worked on train skipped"},
      {e::make_error_code(e::kss::NO_INTERLOCKING_ROUTE_PATH), "kss", 4, "could not determine interlocking route path"},
      {e::make_error_code(e::kss::STOP_IS_HALT_BUT_STATION_ROUTE_NO_HALT), "kss", 5, "stop is marked halt but station route does not have halt"},
      {e::make_error_code(e::kss::TRANSIT_TIME_BUT_NO_RUNTIME_CHECKPOINT), "kss", 6, "transit time is set but no runtime checkpoint in station route"},
      {e::make_error_code(e::kss::CTC_NOT_SUPPORTED), "kss", 7, "CTC is not supported"},
      {e::make_error_code(e::kss::SINGLE_STOP_NOT_SUPPORTED), "kss", 8, "single stop train is not supported"},
      {e::make_error_code(e::kss::BREAK_IN_NOT_SUPPORTED), "kss", 9, "break in not supported"},
      {e::make_error_code(e::kss::BREAK_OUT_NOT_SUPPORTED), "kss", 10, "break out not supported"},
      {e::make_error_code(e::kss::FIRST_STOP_NO_HALT_NOT_SUPPORTED), "kss", 11, "first stop has no halt is not supported"},
      {e::make_error_code(e::kss::LAST_STOP_NO_HALT_NOT_SUPPORTED), "kss", 12, "last stop has no halt is not supported"},
      {e::make_error_code(e::kss::INFRASTRUCTURE_VERSION_MISMATCH), "kss", 13, "infrastructure version mismatch"},
  };
}

// every code, against every other code
CASES(U10) {
  auto const a = all();
  auto const i = c.case_ < a.size() ? c.case_ : c.r.below(a.size());
  auto const& k = a[i];
  c.check(static_cast<bool>(k.code_), "error-is-failure", k.message_);
  c.eq(k.code_.value(), k.value_, "error-value", k.message_);
  c.eq(std::string{k.code_.category().name()}, std::string{k.category_}, "error-category", k.message_);
  c.eq(k.code_.message(), std::string{k.message_}, "error-message");
  auto const b = all();
  for (std::size_t j = 0; j < b.size(); ++j) {
    c.eq(k.code_ == b[j].code_, i == j, "error-identity", k.message_, " vs ", b[j].message_);
    c.check(&k.code_.category() == &b[j].code_.category() ||
                std::strcmp(k.category_, b[j].category_) != 0,
            "error-category-identity", k.message_, " vs ", b[j].message_);
    c.eq(k.code_.message() == b[j].code_.message(), i == j, "error-message-distinct", k.message_, " vs ", b[j].message_);
    if (i != j) {
      c.check((k.code_ < b[j].code_) != (b[j].code_ < k.code_), "error-order", k.message_);
    }
  }
  c.check(k.code_ != std::error_code{}, "error-not-success", k.message_);
  c.check(!(k.code_ == std::error_code(k.value_, std::system_category())) &&
              !(k.code_ == std::error_code(k.value_, std::generic_category())),
          "error-not-system", k.message_);
  // unknown numbers of a category have a message of their own
  auto const foreign = std::error_code(static_cast<int>(c.r.in(50, 1000)), k.code_.category());
  auto const text = foreign.message();
  for (auto const& o : a) c.check(text != o.message_, "unknown-error-message", foreign.value());
  std::error_code const implicit[] = {e::rolling_stock::TRACTION_VEHICLE_NOT_FOUND, e::timetable::UNKNOWN_SOURCE_TYPE,
                                      e::route_transform::NO_IR, e::kss::CTC_NOT_SUPPORTED};
  c.check(implicit[0] == a[0].code_ && implicit[1] == a[1].code_ && implicit[2] == a[4].code_ &&
              implicit[3] == a[13].code_,
          "error-implicit");
  c.sig(i * 1000 + static_cast<unsigned>(foreign.value()));
  c.stat("codes");
  c.nontrivial();
}

struct hush {
  hush() : old_{std::clog.rdbuf(s_.rdbuf())}, olde_{std::cerr.rdbuf(s_.rdbuf())}, oldo_{std::cout.rdbuf(s_.rdbuf())} {}
  ~hush() {
    std::clog.rdbuf(old_);
    std::cerr.rdbuf(olde_);
    std::cout.rdbuf(oldo_);
  }
  std::ostringstream s_;
  std::streambuf *old_, *olde_, *oldo_;
};

// results carry the value or exactly the error, counters lose nothing
CASES(U10) {
  auto const a = all();
  std::map<std::error_code, std::size_t> model;
  e::stats st{"x"};
  hush h;
  auto const work = [&](std::uint64_t seed, std::size_t n, std::map<std::error_code, std::size_t>& m) {
    vh::rng r{seed};
    auto const a = all();
    for (std::size_t i = 0; i < n; ++i) {
      auto const& k = a[r.below(a.size())];
      if (r.chance(50)) {
        st.count(k.code_);
      } else {
        u::result<int> const res = std::unexpected(k.code_);
        u::result<int> const fwd = u::propagate(res);
        st.count(fwd);
      }
      ++m[k.code_];
    }
  };
  if (c.r.chance(30)) {
    std::map<std::error_code, std::size_t> ms[4];
    std::uint64_t const s0 = c.r.next();
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 4; ++t) ts.emplace_back([&, t] { work(s0 + t, 50, ms[t]); });
    for (auto& t : ts) t.join();
    for (auto& m : ms)
      for (auto& [k, n] : m) model[k] += n;
    c.stat("concurrent");
  } else {
    work(c.r.next(), c.r.below(60), model);
  }
  c.check(st.errors_ == model, "error-counts");
  if (c.r.chance(40)) {
    // codes of other subsystems, all numbers
    std::error_code const k{static_cast<int>(c.r.in(-2000000000, 2000000000)),
                            c.r.chance(50) ? std::generic_category() : a[c.r.below(a.size())].code_.category()};
    if (k) {
      u::result<std::string> const res = std::unexpected(k);
      u::result<int> const fwd = u::propagate(res);
      c.check(!fwd && fwd.error() == k, "propagate-carries-error", k.value());
      u::result<long> const un = u::unexpected(k, "text {}", 2);
      c.check(!un && un.error() == k, "unexpected-carries-error", k.value());
      st.count(fwd);
      ++model[k];
      c.check(st.errors_ == model, "error-counts", k.value());
    }
  }
  {
    // the report names every kind of error once, with its count
    utl::shim_log::verbose() = true;
    h.s_.str("");
    st.report();
    utl::shim_log::verbose() = false;
    std::multiset<std::string> want, got;
    for (auto const& [k, n] : model) want.insert(k.message() + ": " + std::to_string(n));
    std::istringstream in{h.s_.str()};
    std::string line;
    bool named = false;
    while (std::getline(in, line)) {
      if (line.find("[x]") != std::string::npos) {
        named = true;
      } else {
        got.insert(line);
      }
    }
    c.check(got == want, "error-report", h.s_.str());
    c.eq(named, !model.empty(), "error-report-name");
    c.check(st.errors_ == model, "error-counts", "after the report");
    h.s_.str("");
  }

  // whoever makes the code, it is the same one
  if (c.r.chance(10)) {
    std::vector<known> other;
    std::thread([&] { other = all(); }).join();
    for (std::size_t i = 0; i < a.size(); ++i) {
      c.check(a[i].code_ == other[i].code_ && !(a[i].code_ < other[i].code_) && !(other[i].code_ < a[i].code_),
              "error-identity-threads", a[i].message_);
    }
  }

  auto const& k = a[c.r.below(a.size())];
  u::result<int> const r1 = u::unexpected(k.code_);
  c.check(!r1 && r1.error() == k.code_, "unexpected-carries-error", k.message_);
  u::result<int> const r2 = u::unexpected(k.code_, "text {}", 1);
  c.check(!r2 && r2.error() == k.code_, "unexpected-carries-error-text", k.message_);
  u::result<int> const r3 = u::unexpected(std::errc::invalid_argument, "text {}", 1);
  c.check(!r3 && r3.error() == std::make_error_code(std::errc::invalid_argument), "unexpected-errc");
  u::result<int> const r4 = u::unexpected(std::errc::io_error);
  c.check(!r4 && r4.error() == std::make_error_code(std::errc::io_error), "unexpected-errc");
  u::result<std::string> const r5 = u::propagate(r1);
  c.check(!r5 && r5.error() == k.code_, "propagate-carries-error", k.message_);
  c.sig(c.r.s_);
  c.nontrivial();
}

// event statistics: every kind starts at nothing, counts its own events and is printed once
enum class event : int { A, B, C, D, E, count };
enum class lone : std::uint8_t { ONLY, count };

template <typename K>
void statistics(vh::ctx& c) {
  auto const n = static_cast<int>(K::count);
  std::map<K, std::string> texts;
  for (int i = 0; i < n; ++i) texts[static_cast<K>(i)] = "kind " + std::string(1, static_cast<char>('a' + i)) + ":";
  u::statistics<K> st{texts};
  std::map<K, int> model;
  for (int i = 0; i < n; ++i) model[static_cast<K>(i)] = 0;
  auto const ops = c.r.below(40);
  for (std::uint64_t i = 0; i < ops; ++i) {
    auto const k = static_cast<K>(c.r.below(static_cast<std::uint64_t>(n)));
    if (c.r.chance(70)) {
      st.inc(k);
      ++model[k];
    } else {
      st.dec(k);
      --model[k];
    }
  }
  auto const counts = [&] {
    auto m = st.stats_;
    for (auto const& [k, n] : model) m.emplace(k, 0);
    return m;
  };
  c.check(counts() == model, "statistics-counts", ops);
  hush h;
  utl::shim_log::verbose() = true;
  bool thrown = false;
  try {
    st.print();
  } catch (std::exception const&) {
    thrown = true;
  }
  utl::shim_log::verbose() = false;
  std::multiset<std::string> want, got;
  for (auto const& [k, m] : model) want.insert(texts[k] + " " + std::to_string(m));
  std::istringstream in{h.s_.str()};
  std::string line;
  while (std::getline(in, line)) got.insert(line);
  c.check(!thrown && got == want, "statistics-print", h.s_.str());
  c.check(counts() == model, "statistics-counts", "after printing");
  c.stat("statistics");
  if (ops > 5) c.nontrivial();
}

CASES(U10) {
  if (c.r.chance(80)) statistics<event>(c);
  else statistics<lone>(c);
  c.sig(c.r.s_);
}

// an assertion that holds is silent, one that does not throws where asserts are on
CASES(U10) {
  auto const n = static_cast<int>(c.r.in(-1000, 1000));
  auto const line_of = [](std::string const& s) {
    auto const p = s.find("u_err.cc:");
    return p == std::string::npos ? -1 : std::atoi(s.c_str() + p + 9);
  };
  hush h;
  auto const kind = c.r.below(6);
  auto const cond = c.r.chance(50);
  std::string what;
  bool thrown = false;
  int line = 0;
  try {
    switch (kind) {
      case 0: line = __LINE__; u::sassert(cond, "value {} here", n); break;
      case 1: line = __LINE__; u::expect(cond, "value {} here", n); break;
      case 2: line = __LINE__; u::ensure(cond, "value {} here", n); break;
      case 3: line = __LINE__; u::sassert(cond); break;
      case 4: line = __LINE__; u::expect(cond); break;
      default: line = __LINE__; u::ensure(cond);
    }
  } catch (std::runtime_error const& x) {
    thrown = true;
    what = x.what();
  }
#if defined(NDEBUG)
  c.check(!thrown, "assert-off-silent", kind);
  c.check(h.s_.str().empty(), "assert-off-silent-log", kind);
  bool called = false;
  u::sasserts([&] { called = true; });
  u::expects([&] { called = true; });
  u::ensures([&] { called = true; });
  c.check(!called, "assert-block-off");
#else
  c.check(thrown == !cond, "assert-throws", kind, ' ', cond);
  if (cond) {
    c.check(h.s_.str().empty(), "assert-holds-silent", kind);
  } else {
    if (kind < 3) {
      c.check(what.find("value " + std::to_string(n) + " here") != std::string::npos, "assert-message", what);
    }
    static char const* const names[] = {"ASSERT", "PRECONDITION", "POSTCONDITION"};
    if (kind != 3) c.check(what.find(kind < 3 ? names[kind] : names[kind - 3]) != std::string::npos, "assert-kind", kind, ' ', what);
    c.eq(line_of(what), line, "assert-line", what);
    c.check(h.s_.str().find(what.substr(what.find("[FAILED"))) != std::string::npos, "assert-logged", what);
  }
  int called = 0;
  u::sasserts([&] { called += 1; });
  u::expects([&] { called += 10; });
  u::ensures([&] { called += 100; });
  c.eq(called, 111, "assert-block-on");
  bool out = false;
  try {
    u::sasserts([&] { u::sassert(false, "inner"); });
  } catch (std::runtime_error const&) {
    out = true;
  }
  c.check(out, "assert-block-throws");
#endif
  c.sig(kind * 4000 + static_cast<unsigned>(n + 1000) * 2 + cond);
  c.stat("assertions");
  c.nontrivial();
}

}  // namespace
