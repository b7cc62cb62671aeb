// T02: the trips of a train on its service days.
#include "common.h"

#include "soro/timetable/train.h"

using namespace soro;
using namespace soro::tt;
using day = bitfield::anchor_time;

namespace {
absolute_time at(std::int64_t const secs) {
  return absolute_time{absolute_time::duration{static_cast<std::uint32_t>(secs)}};
}
std::int64_t secs(absolute_time const t) { return t.time_since_epoch().count(); }
}  // namespace

CASES(T02) {
  std::int64_t const base = c.r.chance(15) ? c.r.in(0, 3) : c.r.in(10, 40000);
  int const len = static_cast<int>(c.r.chance(10) ? 512 : c.r.in(1, 40));
  std::string mask;
  bool const never = c.r.chance(4);  // every service day was taken back
  std::vector<std::int64_t> days;
  auto const density = c.r.in(1, 100);
  for (int i = 0; i < len; ++i) {
    bool const s = !never && (c.r.chance(static_cast<unsigned>(density)) || (i == len - 1 && days.empty()));
    mask += s ? '1' : '0';
    if (s) days.push_back(base + i);
  }
  train t;
  t.id_ = static_cast<train::id>(c.r.below(1000));
  t.service_days_ = make_bitfield(day{date::days{base}}, day{date::days{base + len - 1}}, mask.c_str());

  // times of the points, in seconds after midnight of the service day
  auto const n = static_cast<std::size_t>(c.r.in(2, 6));
  std::vector<std::int64_t> times;
  auto const span = c.r.chance(50)   ? 86399
                    : c.r.chance(50) ? 2 * 86400
                                     : 4 * 86400;
  for (std::size_t i = 0; i < 2 * n - 2; ++i) times.push_back(c.r.in(0, span));
  if (c.r.chance(20)) times.front() = 0;
  if (c.r.chance(20)) times.back() = 86400 * c.r.in(1, 3);
  std::sort(times.begin(), times.end());
  std::size_t halts = 0;
  using type = sequence_point::type;
  for (std::size_t i = 0; i < n; ++i) {
    sequence_point sp;
    if (i != 0) sp.arrival_ = relative_time{static_cast<std::uint32_t>(times[2 * i - 1])};
    if (i + 1 != n) sp.departure_ = relative_time{static_cast<std::uint32_t>(times[2 * i])};
    sp.type_ = static_cast<type>(c.r.below(4));
    halts += sp.type_ != type::TRANSIT ? 1U : 0U;
    c.check(sp.is_halt() == (sp.type_ != type::TRANSIT), "trip-halt-kind");
    c.check(sp.is_transit() == (sp.type_ == type::TRANSIT), "trip-transit-kind");
    for (auto k : {type::TRANSIT, type::OPERATIONS, type::PASSENGER, type::REQUEST}) {
      c.check(sp.is_halt(k) == (k == sp.type_), "trip-halt-of-kind");
    }
    bool const transit_time = sp.type_ == type::TRANSIT && i + 1 != n;
    c.check(sp.has_transit_time() == transit_time, "trip-transit-time");
    c.check(sp.is_measurable() == (transit_time || sp.type_ != type::TRANSIT), "trip-measurable");
    if (i + 1 != n) {
      c.check(sp.transit_time().count() == times[2 * i], "trip-transit-value");
      auto const d = base + c.r.in(0, len);
      c.check(secs(sp.absolute_departure(date::year_month_day{day{date::days{d}}})) ==
                  d * 86400 + times[2 * i], "trip-absolute-departure");
    }
    if (i != 0) {
      auto const d = base + c.r.in(0, len);
      c.check(secs(sp.absolute_arrival(date::year_month_day{day{date::days{d}}})) ==
                  d * 86400 + times[2 * i - 1], "trip-absolute-arrival");
    }
    t.sequence_points_.push_back(sp);
  }
  auto const dep = times.front(), arr = times.back();
  c.sig(mask + std::to_string(base) + ":" + std::to_string(dep) + "-" + std::to_string(arr));
  if (days.size() > 1) c.nontrivial();
  c.note(mask.substr(0, 60) + " " + std::to_string(dep) + "-" + std::to_string(arr));

  c.check(t.first_departure().count() == dep, "trip-first-departure");
  c.check(t.last_arrival().count() == arr, "trip-last-arrival");
  if (!days.empty()) c.check(secs(t.first_absolute_departure()) == days.front() * 86400 + dep, "trip-first-absolute");
  if (!days.empty()) c.check(secs(t.last_absolute_arrival()) == days.back() * 86400 + arr, "trip-last-absolute");
  c.check(t.total_halts() == halts, "trip-halts");
  c.check(t.trip_count() == days.size(), "trip-count");

  std::vector<std::int64_t> all;
  for (auto const m : t.departures()) all.push_back(secs(m) / 86400);
  c.eq(all, days, "trip-all-departures", mask);
  auto const trips = t.trips();
  bool trips_ok = trips.size() == days.size();
  for (std::size_t i = 0; trips_ok && i < days.size(); ++i) {
    trips_ok = trips[i].train_id_ == t.id_ && secs(trips[i].anchor_) == days[i] * 86400;
  }
  c.check(trips_ok, "trip-trips", mask, " gave ", trips.size());
  for (auto const d : days) {
    auto const iv = t.event_interval(at(d * 86400));
    c.check(secs(iv.start_) == d * 86400 + dep && secs(iv.end_) == d * 86400 + arr,
            "trip-event-interval", d);
  }

  for (int k = 0; k < 8; ++k) {
    // interval borders next to the borders of trips, of days, or anywhere
    auto const border = [&]() -> std::int64_t {
      auto const d = !never && c.r.chance(80) ? c.r.pick(days) : base + c.r.in(-6, len + 6);
      auto const off = static_cast<int>(c.r.below(5) / 3 * (c.r.chance(50) ? 1 : -1));
      std::int64_t v = 0;
      switch (c.r.below(4)) {
        case 0: v = d * 86400 + dep + off; break;
        case 1: v = d * 86400 + arr + off; break;
        case 2: v = d * 86400 + off; break;
        default: v = d * 86400 + c.r.in(0, 86399); break;
      }
      return std::max<std::int64_t>(0, v);
    };
    auto a = border(), z = border();
    if (z < a) std::swap(a, z);
    std::vector<std::int64_t> expect, seen;
    for (auto const d : days) {
      if (d * 86400 + dep <= z && a <= d * 86400 + arr) expect.push_back(d);
    }
    auto const iv = interval{.start_ = at(a), .end_ = at(z)};
    auto const range = t.departures(iv);
    auto const end = range.end();
    for (auto it = range.begin(); it != end; ++it) {
      seen.push_back(secs(*it) / 86400);
      if (seen.size() > days.size()) break;
    }
    c.eq(seen, expect, "trip-departures-in", "days ", mask.substr(0, 100), " from ", base, " dep ", dep, " arr ", arr,
         " interval ", a / 86400, "+", a % 86400, "..", z / 86400, "+", z % 86400);
    if (!expect.empty() && expect.size() < days.size()) c.stat("partial_intervals");
    if (expect.empty()) c.stat("empty_intervals");
    if (arr > 86400) c.stat("trips_past_midnight");
  }
}
