// U04: points in time and durations
#include "common.h"

#include <charconv>
#include <ctime>
#include <limits>
#include <sstream>

#include "soro/utls/result.h"
#include "soro/base/time.h"
#include "soro/utls/unixtime.h"

namespace {

namespace u = soro::utls;
using u::duration;
using u::unixtime;
using namespace u::literals;

// civil date from days since 1970, independent of any library
void civil(std::int64_t z, int& y, unsigned& m, unsigned& d) {
  auto const leap = [](std::int64_t yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
  static unsigned const len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  std::int64_t yy = 1970;
  while (z < 0) {
    --yy;
    z += leap(yy) ? 366 : 365;
  }
  while (z >= (leap(yy) ? 366 : 365)) {
    z -= leap(yy) ? 366 : 365;
    ++yy;
  }
  unsigned mm = 0;
  while (z >= static_cast<std::int64_t>(len[mm] + (mm == 1 && leap(yy) ? 1 : 0))) {
    z -= len[mm] + (mm == 1 && leap(yy) ? 1 : 0);
    ++mm;
  }
  y = static_cast<int>(yy);
  m = mm + 1;
  d = static_cast<unsigned>(z) + 1;
}

std::string text(std::int64_t t) {
  auto days = t / 86400;
  auto rest = t % 86400;
  if (rest < 0) {
    rest += 86400;
    --days;
  }
  int y;
  unsigned m, d;
  civil(days, y, m, d);
  char buf[64];
  std::snprintf(buf, sizeof buf, "%04d-%02u-%02u %02d:%02d:%02d", y, m, d,
                static_cast<int>(rest / 3600), static_cast<int>(rest / 60 % 60),
                static_cast<int>(rest % 60));
  return buf;
}

std::int64_t some_time(vh::ctx& c) {
  switch (c.r.below(5)) {
    case 0: return c.r.in(0, 4102444800);
    case 1: return c.r.in(0, 30000) * 86400 + (c.r.chance(50) ? 0 : -1) + 86400;
    case 2: return c.r.in(1600000000, 1700000000);
    case 3: return c.r.in(0, 100000);
    default: return c.r.in(-100000, 4102444800);
  }
}

CASES(U04) {
  for (int i = 0; i < 20; ++i) {
    auto const t = some_time(c);
    auto const o = some_time(c);
    c.sig(static_cast<std::uint64_t>(t));
    c.nontrivial();
    if (i == 0) c.note("t=" + std::to_string(t));
    unixtime const a{t}, b{o};
    // order
    c.check((a < b) == (t < o) && (a > b) == (t > o) && (a <= b) == (t <= o) && (a >= b) == (t >= o) &&
                (a == b) == (t == o) && (a != b) == (t != o),
            "unixtime-order", t, " ", o);
    c.check((a < o) == (t < o) && (a == t) && (a >= t), "unixtime-order-raw", t, " ", o);
    // arithmetic
    c.eq((a + b).t_, t + o, "unixtime-plus", t, " ", o);
    c.eq((a - b).t_, t - o, "unixtime-minus", t, " ", o);
    auto const k = c.r.in(1, 1000);
    c.eq((a * unixtime{k}).t_, t * k, "unixtime-times", t, " ", k);
    c.eq((a / unixtime{k}).t_, t / k, "unixtime-div", t, " ", k);
    c.eq((a % unixtime{k}).t_, t % k, "unixtime-mod", t, " ", k);
    // numbers beyond 2^32 and 2^53 stay exact too
    auto const big = c.r.in(-4000000000000000000LL, 4000000000000000000LL);
    auto const odd = c.r.in(1, 3000000000LL);
    c.eq((unixtime{big} + b).t_, big + o, "unixtime-plus", big, " ", o);
    c.eq((unixtime{big} - b).t_, big - o, "unixtime-minus", big, " ", o);
    c.eq((unixtime{big} / unixtime{odd}).t_, big / odd, "unixtime-div", big, " ", odd);
    c.eq((unixtime{big} % unixtime{odd}).t_, big % odd, "unixtime-mod", big, " ", odd);
    c.eq((unixtime{big / odd} * unixtime{odd}).t_, big / odd * odd, "unixtime-times", big, " ", odd);
    c.eq((duration{big} + duration{o}).d_, big + o, "duration-plus", big, " ", o);
    c.eq((duration{big} - duration{o}).d_, big - o, "duration-minus", big, " ", o);
    c.eq((duration{big} / duration{odd}).d_, big / odd, "duration-div", big, " ", odd);
    c.eq((duration{big} % duration{odd}).d_, big % odd, "duration-mod", big, " ", odd);
    c.eq((duration{big / odd} * duration{odd}).d_, big / odd * odd, "duration-times", big, " ", odd);
    c.check(static_cast<time_t>(unixtime{big}) == big && static_cast<time_t>(duration{big}) == big &&
                unixtime{big}.as_duration().d_ == big &&
                static_cast<std::size_t>(unixtime{std::abs(big)}) == static_cast<std::size_t>(std::abs(big)) &&
                static_cast<std::size_t>(duration{std::abs(big)}) == static_cast<std::size_t>(std::abs(big)),
            "time-cast", big);
    for (auto const x : {big, std::numeric_limits<time_t>::max(), std::numeric_limits<time_t>::min()}) {
      for (auto const y : {t, -t, std::numeric_limits<time_t>::max(), std::numeric_limits<time_t>::min()}) {
        unixtime const ux{x}, uy{y};
        c.check((ux < uy) == (x < y) && (ux > uy) == (x > y) && (ux <= uy) == (x <= y) && (ux >= uy) == (x >= y) &&
                    (ux == uy) == (x == y) && (ux != uy) == (x != y) && (ux < y) == (x < y) && (ux == y) == (x == y),
                "unixtime-order", x, " ", y);
        duration const dx{x}, dy{y};
        c.check((dx < dy) == (x < y) && (dx > dy) == (x > y) && (dx <= dy) == (x <= y) && (dx >= dy) == (x >= y) &&
                    (dx == dy) == (x == y) && (dx != dy) == (x != y),
                "duration-order", x, " ", y);
      }
    }
    duration const d{c.r.in(-100000, 100000)}, e{c.r.in(-1000, 1000) * 2 + 1};
    c.eq((a + d).t_, t + d.d_, "unixtime-plus-duration", t, " ", d.d_);
    c.eq((a - d).t_, t - d.d_, "unixtime-minus-duration", t, " ", d.d_);
    c.check((a + d) - d == a, "unixtime-duration-inverse", t, " ", d.d_);
    auto acc = a;
    acc += b;
    c.eq(acc.t_, t + o, "unixtime-plus-assign", t, " ", o);
    c.eq(a.as_duration().d_, static_cast<time_t>(t), "unixtime-as-duration", t);
    c.eq((d + e).d_, d.d_ + e.d_, "duration-plus");
    c.eq((d - e).d_, d.d_ - e.d_, "duration-minus");
    c.eq((d * e).d_, d.d_ * e.d_, "duration-times");
    c.eq((d / e).d_, d.d_ / e.d_, "duration-div");
    c.eq((d % e).d_, d.d_ % e.d_, "duration-mod");
    auto dd = d;
    dd += e;
    c.eq(dd.d_, d.d_ + e.d_, "duration-plus-assign");
    dd -= e;
    c.check(dd == d, "duration-minus-assign", d.d_, " ", e.d_);
    c.check((d < e) == (d.d_ < e.d_) && (d == e) == (d.d_ == e.d_) && (d >= e) == (d.d_ >= e.d_),
            "duration-order", d.d_, " ", e.d_);
    // conversions keep the count
    c.check(static_cast<time_t>(a) == t && static_cast<time_t>(d) == d.d_, "time-cast", t);
    c.eq(static_cast<std::size_t>(unixtime{std::abs(t)}), static_cast<std::size_t>(std::abs(t)), "time-cast-size", t);
    // inclusive interval
    auto const lo = std::min(t, o), hi = std::max(t, o);
    for (auto const x : {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, c.r.in(lo - 10, hi + 10)}) {
      c.check(unixtime{x}.in_interval(unixtime{lo}, unixtime{hi}) == (x >= lo && x <= hi),
              "unixtime-interval", x, " in [", lo, ",", hi, "]");
    }
    // validity
    c.check(valid(a) && valid(d) && !valid(unixtime{}) && !valid(duration{}) && !valid(u::INVALID_TIME) &&
                !valid(u::INVALID_DURATION) && !valid(duration::INVALID) && valid(u::ZERO_DURATION) &&
                valid(u::EPOCH),
            "time-valid", t);
    c.check(a < u::END_OF_TIME && u::EPOCH.t_ == 0 && duration::ZERO.d_ == 0 && unixtime{} == u::INVALID_TIME,
            "time-constants", t);
    // units
    auto const n = c.r.in(0, 10000);
    c.check(u::from_seconds(n).d_ == n && u::from_minutes(n).d_ == n * 60 &&
                u::from_hours(n).d_ == n * 3600 && u::from_days(n).d_ == n * 86400,
            "duration-units", n);
    auto const many = c.r.in(0, 100000000000LL);
    c.check(u::from_seconds(many).d_ == many && u::from_minutes(many).d_ == many * 60 &&
                u::from_hours(many).d_ == many * 3600 && u::from_days(many).d_ == many * 86400 &&
                u::from_minutes(-many).d_ == -many * 60 && u::from_days(-n).d_ == -n * 86400,
            "duration-units", many);
    auto const um = static_cast<unsigned long long>(many);
    c.check(u::operator""_s(um).d_ == many && u::operator""_m(um).d_ == many * 60 &&
                u::operator""_h(um).d_ == many * 3600,
            "duration-literals", many);
    c.check((5_s).d_ == 5 && (5_m).d_ == 300 && (5_h).d_ == 18000, "duration-literals", "");
    c.check(std::numeric_limits<unixtime>::max().t_ == std::numeric_limits<time_t>::max() &&
                std::numeric_limits<unixtime>::min().t_ == std::numeric_limits<time_t>::min() &&
                std::numeric_limits<duration>::max().d_ == std::numeric_limits<time_t>::max(),
            "time-limits", "");
    // text
    auto const want = text(t);
    auto const got = u::format_unix_time(a);
    c.check(got.rfind(want, 0) == 0, "unixtime-format", t, " -> '", got, "' expected '", want, "'");
    std::ostringstream os;
    os << a << " " << d;
    c.check(os.str().rfind(want, 0) == 0 && os.str().ends_with(" " + std::to_string(d.d_) + "s"),
            "unixtime-stream", os.str());
    c.eq(u::format_unix_time(a, "%F"), want.substr(0, 10), "unixtime-format-date", t);
    unixtime const p{want, u::INPUT_FORMAT_STR};
    c.eq(p.t_, static_cast<time_t>(t), "unixtime-parse", want);
    unixtime const pd{want.substr(0, 10).c_str(), "%F"};
    auto const day = (t >= 0 ? t : t - 86399) / 86400 * 86400;
    c.eq(pd.t_, static_cast<time_t>(day), "unixtime-parse-date", want);
    c.stat("time_points");
  }
  c.eq(u::format_unix_time(unixtime{}), std::string("MAX"), "unixtime-format-max");
}

CASES(U04) {  // 32-bit timetable time
  using namespace soro;
  for (int i = 0; i < 30; ++i) {
    auto const anchor = static_cast<std::uint32_t>(c.r.in(0, 2000000000));
    auto const rel = static_cast<std::uint32_t>(c.r.in(0, 2000000000));
    auto const a = rep_to_absolute_time(anchor);
    c.sig(anchor);
    c.nontrivial();
    c.eq(absolute_time_to_rep(a), anchor, "abs-rep");
    auto const abs = relative_to_absolute(a, relative_time{rel});
    c.eq(absolute_time_to_rep(abs), anchor + rel, "rel-to-abs", anchor, "+", rel);
    c.eq(absolute_to_relative(a, abs).count(), rel, "abs-to-rel", anchor, "+", rel);
    auto const m = absolute_time_to_rep(midnight(a));
    c.eq(m, anchor / 86400 * 86400, "midnight", anchor);
    c.check(midnight(midnight(a)) == midnight(a), "midnight-twice", anchor);
    int y;
    unsigned mo, d;
    civil(anchor / 86400, y, mo, d);
    auto const from_ymd = ymd_to_abs(date::year_month_day{date::year{y}, date::month{mo}, date::day{d}});
    c.check(from_ymd == midnight(a), "ymd", y, "-", mo, "-", d, " ", anchor);
    auto s = text(anchor);
    s[10] = 'T';
    c.eq(fmt::format("{}", a), s, "abs-format", anchor);
    auto const parsed = str_to_absolute_time(std::to_string(anchor));
    c.check(parsed.has_value() && *parsed == a, "abs-parse", anchor);
    std::string const bad = std::to_string(anchor) + (c.r.chance(50) ? "x" : "00000000000");
    c.check(!str_to_absolute_time(bad).has_value(), "abs-parse-garbage", bad);
    c.check(!str_to_absolute_time("").has_value() && !str_to_absolute_time("-1").has_value(),
            "abs-parse-garbage", "empty or negative");
    c.check(valid(a) && valid(relative_time{rel}) && !valid(INVALID<absolute_time>) &&
                !valid(INVALID<relative_time>),
            "abs-valid", anchor);
    c.stat("absolute_times");
  }
}

}  // namespace
