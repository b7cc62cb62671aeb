// S01: discrete probability distributions over times and speeds.
#include "common.h"

#include <cmath>

#include "soro/simulation/disruption.h"

using namespace soro::simulation;
using soro::utls::duration;
using soro::utls::unixtime;

namespace {

std::int64_t nearest(std::int64_t const v, std::int64_t const m) {
  auto const down = v / m * m;
  return 2 * (v - down) <= m ? down : down + m;
}

bool near(double const a, double const b) { return std::abs(a - b) < 1e-4; }

using speeds = std::map<std::int64_t, double>;

// every entry of the model is found under its key, everything else is zero
template <typename Dist>
void check_level(vh::ctx& c, Dist const& d, speeds const& m, char const* key) {
  double sum = 0;
  std::int64_t expected_key = m.empty() ? 0 : m.begin()->first;
  std::size_t n = 0;
  for (auto const& [k, p] : d) {
    auto const kk = [&] {
      if constexpr (requires { k.km_h_; }) return std::int64_t{k.km_h_};
      else if constexpr (requires { k.t_; }) return std::int64_t{k.t_};
      else return std::int64_t{k.d_};
    }();
    auto const it = m.find(kk);
    auto const e = it == m.end() ? 0.0 : it->second;
    if (!c.check(near(p, e), key, "at ", kk, " got ", p, " expected ", e)) return;
    if (it != m.end()) ++n;
    if (!m.empty() && !c.check(kk == expected_key, key, "keys not evenly spaced at ", kk)) return;
    using primary = std::decay_t<decltype(k)>;
    if constexpr (std::is_same_v<primary, kilometer_per_hour>) expected_key += 1;
    else expected_key += 6;
    sum += p;
  }
  double s = 0;
  for (auto const& [k, p] : m) s += p;
  c.check(n == m.size(), key, "entries missing: ", n, " of ", m.size());
  c.check(near(sum, s), key, "sum ", sum, " expected ", s);
  c.check(d.empty() == m.empty(), key, "emptiness");
}

}  // namespace

CASES(S01) {
  // one level, over durations or times
  speeds m;
  DurationDPD dur;
  TimeDPD time;
  std::int64_t const base = c.r.chance(30) ? 0 : c.r.in(0, 2000000000);
  auto const n = c.r.below(25);
  auto const spread = c.r.chance(30) ? 10 : c.r.in(1, 2000);
  std::string sig;
  for (unsigned i = 0; i < n; ++i) {
    auto const t = base + c.r.in(0, spread);
    auto const p = static_cast<float>(c.r.in(15, 400)) / 10000.0F;
    dur.insert(duration{t}, p);
    time.insert(unixtime{t}, p);
    m[nearest(t, 6)] += p;
    sig += std::to_string(t) + ",";
    c.check(round_to_nearest_multiple(unixtime{t}, unixtime{6}).t_ == nearest(t, 6), "dpd-round", t);
    c.check(round_to_nearest_multiple(duration{t}, duration{6}).d_ == nearest(t, 6), "dpd-round-duration", t);
    if (c.r.chance(25)) {
      check_level(c, dur, m, "dpd-durations");
      check_level(c, time, m, "dpd-times");
    }
  }
  c.sig(sig);
  if (m.size() > 2) c.nontrivial();
  c.note(sig);
  check_level(c, dur, m, "dpd-durations");
  check_level(c, time, m, "dpd-times");
  double s = 0;
  for (auto const& [k, p] : m) {
    s += p;
    c.check(near(time[unixtime{k}], p), "dpd-index", k);
    c.check(near(dur[duration{k}], p), "dpd-index-duration", k);
    auto const jitter = unixtime{k + (k >= 2 ? c.r.in(-2, 3) : 0)};
    c.check(near(time[jitter], p), "dpd-index-rounded", jitter.t_, " near ", k);
  }
  c.check(near(subsum(time), s) && near(subsum(dur), s), "dpd-subsum", s);
  if (!m.empty()) {
    auto a = time.begin();
    auto const total = time.end() - a;
    c.check(total == (m.rbegin()->first - m.begin()->first) / 6 + 1, "dpd-distance", total);
    auto const steps = static_cast<int>(c.r.below(static_cast<std::uint64_t>(total)));
    for (int i = 0; i < steps; ++i) ++a;
    c.check(a - time.begin() == steps && (*a).first.t_ == m.begin()->first + 6 * steps,
            "dpd-advance", steps);
    auto b = dur.begin();
    for (int i = 0; i < steps; ++i) ++b;
    for (int i = 0; i < steps; ++i) --b;
    c.check(b == dur.begin() && (*b).first.d_ == m.begin()->first, "dpd-back", steps);
  }
  std::vector<std::pair<std::int64_t, double>> seen;
  for (auto const& [t, p] : iterate(time)) seen.emplace_back(t.t_, p);
  std::size_t found = 0;
  for (std::size_t i = 0; i < seen.size(); ++i) {
    auto const it = m.find(seen[i].first);
    c.check(it != m.end() && near(it->second, seen[i].second), "dpd-iterate", seen[i].first, " ",
            seen[i].second);
    c.check(i == 0 || seen[i - 1].first < seen[i].first, "dpd-iterate-order");
    if (it != m.end() && it->second > 0.0101) ++found;
  }
  std::size_t noticeable = 0;
  for (auto const& [k, p] : m) noticeable += p > 0.0101 ? 1U : 0U;
  c.check(found == noticeable, "dpd-iterate-complete", found, " of ", noticeable);
}

CASES(S01) {
  // two levels
  std::map<std::int64_t, speeds> m;
  TimeSpeedDPD d;
  std::int64_t const base = c.r.chance(30) ? 0 : c.r.in(0, 2000000000);
  auto const n = c.r.below(40);
  auto const spread = c.r.chance(40) ? 10 : c.r.in(1, 400);
  auto const vmax = c.r.chance(50) ? 12 : 400;
  std::string sig;
  double s = 0;
  auto const verify = [&](char const* key) {
    std::int64_t expected_key = m.empty() ? 0 : m.begin()->first;
    std::size_t seen = 0;
    for (auto const& [t, inner] : d) {
      c.check(t.t_ == expected_key, key, "time ", t.t_, " expected ", expected_key);
      expected_key += 6;
      auto const it = m.find(t.t_);
      check_level(c, inner, it == m.end() ? speeds{} : it->second, key);
      seen += it != m.end() ? 1U : 0U;
    }
    c.check(seen == m.size(), key, "times missing");
    c.check(near(sum(d), s), key, "sum ", sum(d), " expected ", s);
    c.check(d.empty() == m.empty(), key, "emptiness");
  };
  for (unsigned i = 0; i < n; ++i) {
    auto const t = base + c.r.in(0, spread);
    auto const v = c.r.in(0, vmax);
    auto const p = static_cast<float>(c.r.in(15, 400)) / 10000.0F;
    if (!m.empty() && nearest(t, 6) < m.begin()->first) c.stat("grown_front");
    d.insert(unixtime{t}, kilometer_per_hour{static_cast<int>(v)}, p);
    m[nearest(t, 6)][v] += p;
    s += p;
    sig += std::to_string(t) + "@" + std::to_string(v) + ",";
    if (c.r.chance(15)) verify("dpd-two-levels");
  }
  c.sig(sig);
  if (m.size() > 2) c.nontrivial();
  verify("dpd-two-levels");
  std::size_t noticeable = 0, found = 0;
  for (auto const& [t, inner] : m) {
    check_level(c, d[unixtime{t}], inner, "dpd-outer-index");
    for (auto const& [v, p] : inner) {
      c.check(near(d[unixtime{t}][kilometer_per_hour{static_cast<int>(v)}], p), "dpd-index-two", t, "@", v);
      noticeable += p > 0.0101 ? 1U : 0U;
    }
  }
  std::pair<std::int64_t, std::int64_t> last{-1, -1};
  for (auto const& [t, v, p] : iterate(d)) {
    std::pair<std::int64_t, std::int64_t> const now{t.t_, v.km_h_};
    auto const it = m.find(now.first);
    bool const ok = it != m.end() && it->second.count(now.second) != 0 &&
                    near(it->second.at(now.second), p);
    c.check(ok, "dpd-iterate-two", now.first, "@", now.second, " ", p);
    c.check(last < now, "dpd-iterate-two-order");
    last = now;
    found += ok && it->second.at(now.second) > 0.0101 ? 1U : 0U;
  }
  c.check(found == noticeable, "dpd-iterate-two-complete", found, " of ", noticeable);
}

CASES(S01) {
  // far apart entries, entries above one
  std::map<std::int64_t, speeds> m;
  speeds flat;
  TimeSpeedDPD d;
  DurationDPD dur;
  auto const n = 2 + c.r.below(6);
  std::int64_t const base = c.r.in(200000, 2000000000);
  double s = 0;
  std::string sig;
  for (unsigned i = 0; i < n; ++i) {
    auto const t = base + (c.r.chance(50) ? c.r.in(-60000, 60000) : c.r.in(-60, 60));
    auto const v = c.r.in(0, 300);
    auto const p = static_cast<float>(c.r.in(1, 40)) / 8.0F;
    if (!m.empty() && m.begin()->first - nearest(t, 6) > 6144) c.stat("far_front");
    d.insert(unixtime{t}, kilometer_per_hour{static_cast<int>(v)}, p);
    dur.insert(duration{t}, p);
    m[nearest(t, 6)][v] += p;
    flat[nearest(t, 6)] += p;
    s += p;
    sig += std::to_string(t) + "@" + std::to_string(v) + ",";
  }
  c.sig(sig);
  c.note(sig);
  c.nontrivial();
  check_level(c, dur, flat, "dpd-far-durations");
  auto const slots = (m.rbegin()->first - m.begin()->first) / 6 + 1;
  c.check(d.end() - d.begin() == slots, "dpd-far-slots", d.end() - d.begin(), " expected ", slots);
  c.check(std::abs(sum(d) - s) < 1e-3, "dpd-far-sum", sum(d), " expected ", s);
  std::size_t filled = 0;
  for (auto const& [t, inner] : d) {
    if (inner.empty()) continue;
    ++filled;
    auto const it = m.find(t.t_);
    check_level(c, inner, it == m.end() ? speeds{} : it->second, "dpd-far-inner");
  }
  c.check(filled == m.size(), "dpd-far-filled", filled, " expected ", m.size());
}

CASES(S01) {
  // the disruption distributions are distributions around the plan
  auto const halt = get_halt_distribution();
  double s = 0, before = 2;
  for (auto const& [t, p] : halt) {
    c.check(t.d_ >= 0 && t.d_ <= 300, "halt-range", t.d_);
    c.check(p >= 0 && p <= before, "halt-decreasing", t.d_);
    before = t.d_ == 0 ? 2.0 : p;
    s += p;
  }
  c.check(std::abs(s - 1) < 1e-3, "halt-sum", s);

  auto const arrival = c.r.in(0, 2000000000);
  auto const speed = c.r.chance(30) ? c.r.in(0, 6) : c.r.in(0, 400);
  c.sig(static_cast<std::uint64_t>(arrival));
  c.nontrivial();
  auto const d = get_runtime_distribution(unixtime{arrival}, kilometer_per_hour{static_cast<int>(speed)});
  auto const var = std::min<std::int64_t>(speed, 5);
  std::map<std::int64_t, double> per_speed;
  double total = 0;
  for (auto const& [t, inner] : d) {
    for (auto const& [v, p] : inner) {
      if (p == 0.0F) continue;
      c.check(t.t_ >= nearest(arrival, 6) && t.t_ <= nearest(arrival + 300, 6), "run-range", t.t_);
      c.check(v.km_h_ >= speed - var && v.km_h_ <= speed + var, "run-speed", v.km_h_, " at ", speed);
      per_speed[v.km_h_] += p;
      total += p;
    }
  }
  c.check(std::abs(total - 1) < 1e-3, "run-sum", total, " at speed ", speed);
  c.check(per_speed.size() == static_cast<std::size_t>(2 * var + 1), "run-speeds", per_speed.size());
  for (auto const& [v, p] : per_speed) {
    c.check(std::abs(p - total / static_cast<double>(per_speed.size())) < 1e-3, "run-even", v, " ", p);
  }
}
