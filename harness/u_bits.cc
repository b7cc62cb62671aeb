// links: src/timetable/bitfield.cc
// T01: service days as a set of calendar days inside a range.
#include "common.h"

#include "soro/timetable/bitfield.h"

using namespace soro;
using soro::tt::bitfield;
using day = bitfield::anchor_time;

namespace {

struct model {
  day first_, last_;
  std::set<day> days_;

  int length() const { return (last_ - first_).count() + 1; }
};

std::string show(day const d) {
  date::year_month_day const y{d};
  char buf[32];
  std::snprintf(buf, sizeof buf, "%d-%02u-%02u", int{y.year()}, unsigned{y.month()},
                unsigned{y.day()});
  return buf;
}

std::string show(model const& m) {
  std::string s = "[" + show(m.first_) + ".." + show(m.last_) + "]{";
  for (auto const& d : m.days_) s += show(d) + ",";
  return s.substr(0, 500) + "}";
}

day random_day(vh::ctx& c) {
  // days whose midnight fits the type of absolute times (until 2106)
  switch (c.r.below(4)) {
    case 0: return day{date::days{c.r.in(0, 40)}};
    case 1: return day{date::days{c.r.in(18900, 19400)}};
    case 2: return date::sys_days{date::year{2024} / 2 / 28} + date::days{c.r.in(-3, 3)};
    default: return day{date::days{c.r.in(0, 48000)}};
  }
}

std::pair<bitfield, model> random_field(vh::ctx& c, day const first, int const max_len) {
  model m;
  m.first_ = first;
  int const len = static_cast<int>(
      c.r.chance(20) ? c.r.in(1, 3)
                     : (c.r.chance(15) ? max_len : c.r.in(1, max_len)));
  m.last_ = first + date::days{len - 1};
  std::string mask(static_cast<std::size_t>(len), '0');
  auto const density = c.r.below(5);
  for (int i = 0; i < len; ++i) {
    bool const set = density == 0 ? false
                     : density == 1 ? true
                     : density == 2 ? c.r.chance(5)
                     : density == 3 ? c.r.chance(95)
                                    : c.r.chance(50);
    if (set) {
      mask[static_cast<std::size_t>(i)] = '1';
      m.days_.insert(first + date::days{i});
    }
  }
  // exactly sized, so that reading beyond the mask is seen
  std::vector<char> exact(mask.begin(), mask.end());
  exact.push_back('\0');
  return {soro::tt::make_bitfield(m.first_, m.last_, exact.data()), m};
}

absolute_time abs(day const d, std::uint32_t const secs = 0) {
  return absolute_time{absolute_time::duration{
      static_cast<std::uint32_t>(d.time_since_epoch().count()) * 86400u + secs}};
}

// times are 32 bit seconds
bool far_ok(day const d) { return d.time_since_epoch().count() < 49000; }

bool check(vh::ctx& c, bitfield const& b, model const& m, char const* when) {
  bool ok = true;
  ok &= c.check(b.ok(), "bits-ok", when);
  ok &= c.check(b.first_date_ == m.first_ && b.last_date_ == m.last_, "bits-range", when, " ",
                show(b.first_date_), "..", show(b.last_date_), " expected ", show(m));
  std::vector<day> const expect(m.days_.begin(), m.days_.end());
  ok &= c.check(b.get_set_days() == expect, "bits-set-days", when, " ", show(m), " got ",
                b.get_set_days().size(), " days");
  ok &= c.eq(static_cast<std::size_t>(b.count()), expect.size(), "bits-count", when);
  if (!ok) return false;
  std::vector<day> seen;
  auto const end = b.end();
  for (auto it = b.begin(); it != end; ++it) {
    seen.push_back(*it);
    if (seen.size() > 600) break;
  }
  ok &= c.check(seen == expect, "bits-iterate", when, " ", show(m), " saw ", seen.size());
  if (!expect.empty()) {
    ok &= c.check(b.first_set_date() == abs(expect.front()), "bits-first-set", when, show(m));
    ok &= c.check(b.last_set_date() == abs(expect.back()), "bits-last-set", when, show(m));
  }
  for (int k = 0; k < 12; ++k) {
    auto const d = k == 0   ? m.first_
                   : k == 1 ? m.last_
                            : m.first_ + date::days{c.r.in(0, m.length() - 1)};
    ok &= c.check(b[d] == (m.days_.count(d) != 0), "bits-index", when, " ", show(d), " ", show(m));
    ok &= c.check(b.at(d) == (m.days_.count(d) != 0), "bits-at", when, " ", show(d), " ", show(m));
  }
  for (int k = 0; k < 3; ++k) {
    auto const off = date::days{k == 0 ? 1 : c.r.in(1, 600)};
    for (auto const d : {m.first_ - off, m.last_ + off}) {
      bool thrown = false;
      try {
        b.at(d);
      } catch (std::exception const&) {
        thrown = true;
      }
      ok &= c.check(thrown, "bits-at-outside", when, " ", show(d), " ", show(m));
    }
  }
  return ok;
}

void check_ranges(vh::ctx& c, bitfield const& b, model const& m) {
  for (int k = 0; k < 6; ++k) {
    auto near = [&](int const slack) {
      auto const lo = m.first_ - date::days{slack};
      auto const d = lo + date::days{c.r.in(0, m.length() + 2 * slack)};
      return std::max(d, day{date::days{0}});
    };
    auto a = c.r.chance(20) ? m.first_ : c.r.chance(20) ? m.last_ : near(8);
    auto z = c.r.chance(20) ? m.first_ : c.r.chance(20) ? m.last_ : near(8);
    if (z < a) std::swap(a, z);
    auto const t = [&](day d) {
      return abs(d, static_cast<std::uint32_t>(c.r.chance(30)   ? 0
                                               : c.r.chance(30) ? 86399
                                                                : c.r.below(86400)));
    };
    auto const ta = t(a), tz = t(z);
    std::vector<day> seen, expect;
    for (auto const d : m.days_) {
      if (a <= d && d <= z) expect.push_back(d);
    }
    auto it = b.from(ta);
    auto const end = b.to(tz);
    while (it != end && !(it == b.end())) {
      seen.push_back(*it);
      ++it;
    }
    c.check(it == end, "bits-from-after-to", show(a), "..", show(z), " ", show(m));
    c.check(seen == expect, "bits-from-to", show(a), "..", show(z), " saw ", seen.size(),
            " expected ", expect.size(), " in ", show(m));
    if (!expect.empty() && expect.size() < m.days_.size()) c.stat("partial_ranges");
  }
}

}  // namespace

CASES(T01) {
  auto [b, m] = random_field(c, random_day(c), c.r.chance(20) ? 512 : 90);
  c.sig(show(m));
  if (m.days_.size() > 1) c.nontrivial();
  c.note(show(m));
  if (!check(c, b, m, "made")) return;
  check_ranges(c, b, m);

  auto const steps = c.r.below(14);
  for (unsigned s = 0; s < steps; ++s) {
    auto const room = 512 - m.length();
    switch (c.r.below(5)) {
      case 0: {  // inside
        auto const d = m.first_ + date::days{c.r.in(0, m.length() - 1)};
        bool const v = c.r.chance(50);
        b.set(d, v);
        v ? (void)m.days_.insert(d) : (void)m.days_.erase(d);
        break;
      }
      case 1: {  // before
        if (room == 0) break;
        auto const d = m.first_ - date::days{c.r.in(1, c.r.chance(10) ? room : std::min(room, 40))};
        if (d < day{}) break;
        bool const v = c.r.chance(75);
        b.set(d, v);
        m.first_ = d;
        if (v) m.days_.insert(d);
        c.stat("grown_front");
        break;
      }
      case 2: {  // behind
        if (room == 0) break;
        auto const d = m.last_ + date::days{c.r.in(1, c.r.chance(10) ? room : std::min(room, 40))};
        bool const v = c.r.chance(75);
        b.set(d, v);
        m.last_ = d;
        if (v) m.days_.insert(d);
        c.stat("grown_back");
        break;
      }
      default: {
        // overlapping, touching, disjoint, contained, around
        auto const start = m.first_ + date::days{c.r.in(-60, m.length() + 30)};
        if (start < day{}) break;
        auto const [o, om] = random_field(c, start, 60);
        auto const lo = std::min(m.first_, om.first_), hi = std::max(m.last_, om.last_);
        if ((hi - lo).count() >= 512) break;
        auto const before = b, obefore = o;
        auto mm = m;
        mm.first_ = lo;
        mm.last_ = hi;
        mm.days_.insert(om.days_.begin(), om.days_.end());
        auto const joined = b | o;
        c.check(b == before && o == obefore, "bits-or-changed-operand", show(m));
        check(c, joined, mm, "joined");
        auto const flipped = o | b;
        c.check(flipped == joined, "bits-or-commutes", show(m), show(om));
        if (c.r.chance(60)) {
          auto const r = (b |= o);
          c.check(o == obefore, "bits-or-assign-operand", show(m));
          c.check(r == b, "bits-or-assign-result", show(m));
          m = mm;
        }
        c.stat("joins");
        // equivalence is about the days, equality also about the range
        c.check(joined.equivalent(before) ==
                    (std::vector<day>(mm.days_.begin(), mm.days_.end()) == before.get_set_days()),
                "bits-equivalent", show(mm));
        break;
      }
    }
    if (!check(c, b, m, "after step")) return;
  }
  check_ranges(c, b, m);

  // more days than there are bits are refused, and nothing changes
  auto const refused = [&](char const* key, auto&& f, std::string const& what) {
    auto const before = b;
    bool thrown = false;
    try {
      f();
    } catch (std::exception const&) {
      thrown = true;
    }
    c.check(thrown, key, what, " with ", show(m));
    c.check(b == before, "bits-refused-but-changed", key, " ", what, " with ", show(m));
    c.stat("refusals");
  };
  for (int k = 0; k < 2; ++k) {
    auto const over = c.r.chance(50) ? 512 - m.length() : 512 - m.length() + c.r.in(0, 700);
    bool const early = c.r.chance(50);
    auto const far = early ? m.first_ - date::days{over + 1} : m.last_ + date::days{over + 1};
    if (far < day{} || !far_ok(far)) continue;
    refused("bits-set-too-far", [&] { b.set(far, c.r.chance(80)); }, show(far));
    // a field that starts or ends there
    auto const len = static_cast<int>(c.r.in(1, c.r.chance(50) ? 5 : 500));
    auto const start = early ? far : far - date::days{len - 1};
    std::string mask(static_cast<std::size_t>(len), '1');
    if (start >= day{}) {
      auto o = soro::tt::make_bitfield(start, start + date::days{len - 1}, mask.c_str());
      auto const bb = b;
      refused("bits-join-too-far", [&] { b |= o; }, show(start) + "+" + std::to_string(len));
      refused("bits-joined-too-far", [&] { (void)(o | bb); }, show(start) + "+" + std::to_string(len));
    }
    auto const n = m.length();
    std::string wrong(static_cast<std::size_t>(std::max(0, n + static_cast<int>(c.r.in(1, 3)) * (c.r.chance(50) ? 1 : -1))), '1');
    refused("bits-mask-length", [&] { soro::tt::make_bitfield(m.first_, m.last_, wrong.c_str()); }, std::to_string(wrong.size()));
    if (n > 1) refused("bits-dates-swapped", [&] {
      soro::tt::make_bitfield(m.last_, m.first_, std::string(static_cast<std::size_t>(n), '1').c_str());
    }, "");
  }

  // the same days written with another range
  if (!m.days_.empty()) {
    auto const first = c.r.chance(50) ? *m.days_.begin() : m.first_;
    auto const last = c.r.chance(50) ? *m.days_.rbegin() : m.last_;
    std::string mask;
    for (auto d = first; d <= last; d += date::days{1}) {
      mask += m.days_.count(d) != 0 ? '1' : '0';
    }
    auto o = soro::tt::make_bitfield(first, last, mask.c_str());
    c.check(o.equivalent(b) && b.equivalent(o), "bits-equivalent-other-range", show(m), " as ",
            show(first), "..", show(last));
    c.check((o == b) == (first == m.first_ && last == m.last_), "bits-equal", show(m));
    c.stat("equivalents");
    auto const d = first + date::days{c.r.in(0, (last - first).count())};
    o.set(d, m.days_.count(d) == 0);
    c.check(!o.equivalent(b) && !b.equivalent(o), "bits-not-equivalent", show(m), " without ", show(d));
  }
}
