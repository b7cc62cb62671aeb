// R01, R02: the speed profile of a train and its running times.
#include "tt.h"

#include "soro/runtime/interval.h"
#include "soro/runtime/runtime.h"

using namespace mdl;
namespace inf = soro::infra;
namespace tt = soro::tt;
namespace rt = soro::runtime;

namespace {

constexpr double BRAKE = 0.7;  // m/s^2
constexpr double STEP = 0.5;  // the calculation's time step in seconds

struct run_world : tt_world {
  void tune(vh::ctx& c, options& o) override {
    tt_world::tune(c, o);
    o.wide = true;
    weak = c.r.chance(20) ? 40 : 0;
    o.mids = static_cast<int>(c.r.in(3, 14));
  }
};

struct wanted_event {
  int state;
  double at;
};
struct wanted {
  double at;
  double left, right;  // m/s, before the train's ability to brake is considered
  int point;  // halt, or -1
  std::vector<wanted_event> events;
};

double ms(int kmh) { return kmh / 3.6; }
double mps(soro::si::speed const v) { return v.val_; }
double metre(soro::si::length const v) { return v.val_; }

struct profile {
  std::vector<wanted> list;
  std::vector<double> walk_at;  // position of every node of the walk
  bool halts_collide{false};
  bool initial_known{false};
};

bool effective(speed_spec const& s) { return s.kmh > 0 && s.effects <= 1; }

// the speed limits along the walk of a train
profile make_profile(tt_world const& w, train_spec const& t, std::set<type> const& types, double initial_found) {
  auto const& n = w.n;
  profile p;
  auto const walk = w.walk(t);
  // in force at the first halt
  double initial = initial_found;
  {
    auto const& rt = w.sr(t.points.front().route);
    bool clear = true, found = false;
    for (int q = w.halt_of(t.points.front().route, t.freight); q > 0 && !found; --q) {
      if (rt.omitted.count(q) > 0 || rt.spls.count(q) > 0) clear = false;
      auto const& st = n.states[rt.states[q]];
      if (n.type_of(rt.states[q]) != type::SPEED_LIMIT) continue;
      auto const& m = n.sections[st.a].mids[st.b];
      if (std::string(m.kind().base) == "GeschwZulaessig" && effective(m.spl)) {
        found = true;
        if (clear) {
          initial = ms(m.spl.kmh);
          p.initial_known = true;
        }
      }
    }
  }
  double at = 0, current = initial, previous = -1;
  std::size_t last_signal = 0;
  std::vector<wanted_event> events;
  for (std::size_t k = 0; k < walk.size(); ++k) {
    auto const& x = walk[k];
    if (k > 0) {
      at += std::abs(km_towards(n, walk[k - 1].state, x.state) - km_towards(n, x.state, walk[k - 1].state)) / 10.0;
    }
    p.walk_at.push_back(at);
    auto const ty = n.type_of(x.state);
    if (x.omitted || (ty == type::HALT && x.point < 0)) continue;
    speed_spec const *here = nullptr, *signal = nullptr;
    auto const handle = [&](speed_spec const& s) {
      if (effective(s)) (s.at_signal ? signal : here) = &s;
    };
    if (ty == type::SPEED_LIMIT) {
      auto const& st = n.states[x.state];
      auto const& m = n.sections[st.a].mids[st.b];
      if (std::string(m.kind().base) == "GeschwZulaessig") handle(m.spl);
    }
    if (x.extra != nullptr && x.extra_kind == 0) handle(*x.extra);
    if (signal != nullptr && p.list.empty()) {
      previous = current = ms(signal->kmh);  // in force since before the first halt
    } else if (signal != nullptr) {
      // from the last signal up to the next other limit
      auto const replaced = p.list[last_signal].right;
      auto q = last_signal;
      for (; q < p.list.size() && p.list[q].right == replaced; ++q) {
        p.list[q].right = ms(signal->kmh);
        if (q + 1 < p.list.size()) p.list[q + 1].left = ms(signal->kmh);
      }
      if (q == p.list.size()) previous = current = ms(signal->kmh);
    }
    if (std::getenv("SHOW") != nullptr && (here || signal || ty == type::MAIN_SIGNAL || ty == type::HALT)) {
      std::printf("WALK %.0f type %d here %d signal %d halts %d\n", at, static_cast<int>(ty), here ? here->kmh : 0, signal ? signal->kmh : 0, x.halts);
    }
    if (here != nullptr) {
      previous = current;
      current = ms(here->kmh);
    }
    if (types.count(ty) > 0) events.push_back({x.state, at});
    if (ty == type::MAIN_SIGNAL || ty == type::HALT || here != nullptr) {
      wanted i{at, previous, current, x.halts ? x.point : -1, events};
      if (!p.list.empty() && p.list.back().at == at) {
        auto& b = p.list.back();
        b.right = i.right;
        b.events.insert(b.events.end(), i.events.begin(), i.events.end());
        if (i.point >= 0) {
          p.halts_collide = p.halts_collide || b.point >= 0;
          b.point = i.point;
        }
      } else {
        p.list.push_back(i);
      }
      if (ty == type::MAIN_SIGNAL) last_signal = p.list.size() - 1;
      previous = current;
      events.clear();
    }
  }
  return p;
}

double brake_length(double from, double to) { return from > to ? (from * from - to * to) / (2 * BRAKE) : 0; }

std::set<type> random_types(vh::ctx& c) {
  static type const all[] = {type::HALT, type::MAIN_SIGNAL, type::APPROACH_SIGNAL, type::EOTD, type::SPEED_LIMIT,
                             type::RUNTIME_CHECKPOINT, type::SIMPLE_SWITCH, type::BORDER, type::SLOPE};
  std::set<type> s;
  if (c.r.chance(85)) s.insert(type::HALT);
  for (auto const t : all) {
    if (c.r.chance(50)) s.insert(t);
  }
  if (s.empty()) s.insert(type::MAIN_SIGNAL);
  return s;
}

inf::type_set type_set_of(std::set<type> const& s) {
  std::vector<type> v(s.begin(), s.end());
  while (v.size() < 9) v.push_back(v.front());
  return {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]};
}

// the limit at the first halt, before the ability to brake lowers it
double initial_limit(tt_world const& w, train_spec const& t, std::set<type> const& types, rt::interval_list const& got) {
  double const placeholder = 1e6;
  auto const p = make_profile(w, t, types, placeholder);
  if (!p.initial_known && !p.list.empty() && p.list.front().right != placeholder) return -1;  // cannot tell
  double best = mps(got.front().limit_right_);
  for (std::size_t k = 0; k < got.size() && k < p.list.size() && p.list[k].right == placeholder; ++k) {
    best = std::max(best, mps(got[k].limit_right_));
  }
  // only braking may have lowered it: would another one lead to other limits further on?
  for (int kmh = 5; kmh <= 400 && !p.initial_known; kmh += 5) {
    auto const a = make_profile(w, t, types, best), b = make_profile(w, t, types, ms(kmh));
    for (std::size_t k = 0; k < a.list.size(); ++k) {
      if (a.list[k].right != b.list[k].right && p.list[k].right != placeholder) return -1;
    }
  }
  return best;
}

template <typename Fn>
void for_trains(vh::ctx& c, run_world& w, Fn&& fn) {
  if (!w.prepare(c) || !w.map(c)) return;
  if (w.i().interlocking_.routes_.size() != w.lv->all.size()) return;
  w.random_timetable(c, true, c.thorough_ ? 20 : 8);
  if (w.specs.empty()) return;
  tt::timetable_options opts;
  opts.timetable_path_ = w.tt_dir;
  auto const t = std::make_unique<tt::timetable>(opts, *w.infra);
  for (auto const& x : (*t)->trains_) {
    auto const& s = w.specs[x.number_.main_ - 100];
    std::size_t points = 0;
    for (auto const& p : s.points) points += p.type != 0 || p.departure >= 0;
    if (points != x.sequence_points_.size()) continue;
    // a train cannot halt where its route leaves the halt out
    bool absurd = false;
    for (auto const& q : w.walk(s)) absurd = absurd || (q.halts && q.omitted);
    if (absurd) continue;
    c.nontrivial();
    c.sig(s.main * 1000 + s.points.size() * 10 + s.units.size());
    fn(x, s);
  }
}

}  // namespace

// intervals of constant speed limit along the path
CASES(R01) {
  run_world w;
  for_trains(c, w, [&](tt::train const& x, train_spec const& s) {
    auto const types = random_types(c);
    if (std::getenv("SHOW") != nullptr) {
      for (auto const& q : s.points) std::printf("POINT route %d type %d dep %ld halt %d states %zu\n", q.route, q.type, (long)q.departure, w.halt_of(q.route, s.freight), w.sr(q.route).states.size());
      std::printf("PATH %zu walk %zu points %zu\n", x.path_.size(), w.walk(s).size(), x.sequence_points_.size());
      for (auto const& tn : x.iterate(*w.infra)) std::printf("NODE type %d om %d sp %d\n", static_cast<int>(tn.node_->type()), tn.omitted_, tn.sequence_point_.has_value());
    }
    auto const got = rt::get_interval_list(x, type_set_of(types), *w.infra);
    if (!c.check(!got.empty(), "interval-count", "no intervals")) return;
    auto const initial = initial_limit(w, s, types, got);
    if (initial < 0) return;
    auto const p = make_profile(w, s, types, initial);
    if (p.halts_collide) return;
    auto const vmax = mps(x.physics_.max_speed());
    std::ostringstream o;
    for (auto const& q : p.list) o << " " << q.at << "(" << q.left << "|" << q.right << (q.point >= 0 ? " halt" : "") << ")";
    o << " got";
    for (auto const& q : got) o << " " << metre(q.distance_) << "(" << mps(q.limit_left_) << "|" << mps(q.limit_right_) << ")";
    if (!c.eq(got.size(), p.list.size(), "interval-count", o.str())) return;
    c.stat("profiles");
    c.stat("intervals", got.size());
    bool reduced = false;
    for (std::size_t k = 0; k < got.size(); ++k) {
      auto const& g = got[k];
      auto const& e = p.list[k];
      c.check(near(metre(g.distance_), e.at, 1e-2 + e.at * 1e-6), "interval-position", k, o.str());
      c.check(g.is_halt() == (e.point >= 0), "interval-halt", k, o.str());
      if (g.is_halt() && e.point >= 0) {
        c.check(*g.sequence_point_ == &x.sequence_points_[static_cast<std::size_t>(e.point)], "interval-halt-point", k);
      }
      if (c.eq(g.events_.size(), e.events.size(), "interval-events", k)) {
        for (std::size_t q = 0; q < e.events.size(); ++q) {
          c.check(g.events_[q].node_ == w.node_of[e.events[q].state], "interval-event", k, " ", q);
          c.check(near(metre(g.events_[q].distance_), e.events[q].at, 1e-2 + e.at * 1e-6), "interval-event-position", k, " ", q);
        }
      }
      // never above the limit, lower only as far as braking needs it
      auto const left = mps(g.limit_left_), right = mps(g.limit_right_);
      double const eps = 1e-3;
      if (k == 0) {
        auto const kmh = right * 3.6;
        bool const possible = p.initial_known || std::abs(kmh - w.n.default_kmh) < 1e-3 || std::abs(std::round(kmh / 5) * 5 - kmh) < 1e-2;
        c.check(possible || right <= p.list[0].right + eps, "interval-initial", right, o.str());
        if (p.initial_known) c.stat("initial_known");
      } else {
        auto const length = e.at - p.list[k - 1].at;
        auto const before = mps(got[k - 1].limit_right_);
        c.check(left <= e.left + eps, "interval-over-limit", k, " left", o.str());
        c.check(std::abs(before - left) < eps, "interval-limits-meet", k, o.str());
        auto const target = std::min(g.is_halt() ? 0.0 : right, vmax);
        auto const v = std::min(left, vmax);
        c.check(v > 0, "interval-stuck", k, o.str());
        c.check(brake_length(v, target) <= length + 0.5 + length * 1e-3, "interval-brake", k, o.str());
        if (left < e.left - eps) {
          reduced = true;
          // one step faster would have been too fast
          auto const faster = std::min({left + 1.0, e.left, vmax});
          c.check(left < vmax + eps && (brake_length(faster, target) >= length - 0.5 - length * 1e-3 || faster - left < 1.0 - eps),
                  "interval-too-slow", k, " ", length, o.str());
        }
      }
      c.check(right <= e.right + eps, "interval-over-limit", k, " right", o.str());
    }
    if (reduced) c.stat("reduced");
    for (auto const& e : p.list) c.stat("limit_changes", e.left >= 0 && e.left != e.right);
  });
}

namespace {
// position and time along an interval, driven as fast as its limits allow
struct run {
  double time{0}, end_speed{0};
  bool feasible{true};
};

struct drive {
  std::vector<std::pair<double, double>> samples;  // (distance, time)
  double at_time(double d) const {
    auto const it = std::lower_bound(samples.begin(), samples.end(), std::make_pair(d, -1.0));
    if (it == samples.end()) return samples.back().second;
    if (it == samples.begin()) return it->second;
    auto const& a = *std::prev(it);
    auto const f = it->first > a.first ? (d - a.first) / (it->first - a.first) : 1.0;
    return a.second + f * (it->second - a.second);
  }
};

struct physics {
  std::vector<vehicle_spec const*> units;
  double weight{0};  // kg
  double vmax{0};
  double acceleration(double v) const {
    auto const at = v * 3.6;
    double force = 0;
    for (auto const* u : units) {
      auto const* p = &u->pieces.front();
      for (auto const& q : u->pieces) {
        if (q.from <= at) p = &q;
      }
      force += 1000 * (p->f1 + p->f2 * at + p->f3 * at * at);
      auto const m = u->weight * 1000.0;
      force -= (u->r1 / 1000 + u->r2 / 1000 * at) * m * 9.81 + u->r3 * 9.81 * at * at;
    }
    return force / (weight * 1.06);
  }
};

drive drive_interval(physics const& ph, double length, double v0, double limit, double target, double& v_end) {
  drive d;
  double const dt = 0.02;
  double s = 0, v = v0, t = 0;
  d.samples.push_back({0, 0});
  auto const brake_at = [&](double x) { return length - brake_length(x, target); };
  // accelerate and hold until braking is due
  while (s < brake_at(v) && s < length) {
    auto a = ph.acceleration(v);
    auto nv = std::min(v + a * dt, std::max(v, limit));
    if (v >= limit) {
      // hold the speed until braking is due
      auto const to = std::min(length, brake_at(v));
      t += (to - s) / v;
      s = to;
      d.samples.push_back({s, t});
      break;
    }
    s += (v + nv) / 2 * dt;
    v = nv;
    t += dt;
    d.samples.push_back({s, t});
    if (t > 100000) break;
  }
  if (s < length) {
    // brake
    auto const rest = length - s;
    auto const u = std::sqrt(std::max(target * target, v * v - 2 * BRAKE * rest));
    int const steps = 200;
    for (int k = 1; k <= steps; ++k) {
      auto const x = rest * k / steps;
      auto const y = std::sqrt(std::max(v * v - 2 * BRAKE * x, target * target));
      d.samples.push_back({s + x, t + (v - y) / BRAKE});
    }
    t += (v - u) / BRAKE;
    v = u;
    s = length;
  }
  v_end = std::min(v, std::max(target, 0.0));
  if (v > target && target < limit) v_end = target;
  if (v < v_end) v_end = v;
  return d;
}
}  // namespace

// running times
CASES(R02) {
  run_world w;
  for_trains(c, w, [&](tt::train const& x, train_spec const& s) {
    auto const types = random_types(c);
    auto const il = rt::get_interval_list(x, type_set_of(types), *w.infra);
    auto const initial = initial_limit(w, s, types, il);
    if (initial < 0) return;
    auto const p = make_profile(w, s, types, initial);
    if (p.halts_collide || il.size() != p.list.size()) return;
    physics ph;
    for (auto const& [a, b] : s.units) ph.units.push_back(&w.stock[a].variants[b]);
    ph.weight = s.weight * 1000;
    ph.vmax = mps(x.physics_.max_speed());

    std::unique_ptr<rt::timestamps> ts;
    bool const weak = ph.acceleration(0) <= 0;
    if (std::abs(ph.acceleration(0)) < 1e-3) return;
    if (weak) c.stat("too_weak");
    std::ostringstream o;
    try {
      ts = std::make_unique<rt::timestamps>(rt::runtime_calculation(x, *w.infra, type_set_of(types)));
    } catch (std::exception const& e) {
      if (weak) return;
      for (auto const& q : il) o << " " << metre(q.distance_) << "(" << mps(q.limit_left_) << "|" << mps(q.limit_right_) << ")";
      c.check(false, "runtime-failed", e.what(), o.str());
      return;
    }
    if (!c.check(!weak, "runtime-too-weak", "a train that cannot start got times")) return;
    c.stat("runs");
    // one timestamp per event, in order
    struct expected {
      int state;
      double at;
      std::size_t interval;
    };
    std::vector<expected> want;
    for (std::size_t k = 0; k < p.list.size(); ++k) {
      for (auto const& e : p.list[k].events) want.push_back(expected{e.state, e.at, k});
    }
    if (!c.eq(ts->times_.size(), want.size(), "time-count", "")) return;
    std::vector<std::size_t> halts;
    for (std::size_t k = 0; k < want.size(); ++k) {
      c.check(ts->times_[k].element_ == w.element_of(want[k].state), "time-element", k);
      if (w.n.type_of(want[k].state) == type::HALT) halts.push_back(k);
    }
    c.check(std::vector<std::size_t>(ts->halt_indices_.begin(), ts->halt_indices_.end()) == halts, "time-halts", halts.size(), " ",
            ts->halt_indices_.size());

    std::vector<point_spec> points;
    for (auto const& q : s.points) {
      if (q.type != 0 || q.departure >= 0) points.push_back(q);
    }
    // reference run over the profile
    double v = 0;
    double now = static_cast<double>(points.front().departure);
    double slack = 1;
    std::size_t e = 0;
    auto const arr = [&](std::size_t k) { return secs(ts->times_[k].arrival_); };
    auto const dep = [&](std::size_t k) { return secs(ts->times_[k].departure_); };
    for (; e < want.size() && want[e].interval == 0; ++e) {
      c.check(dep(e) == points.front().departure, "time-first-departure", dep(e), " planned ", points.front().departure);
      c.check(arr(e) <= dep(e), "time-first-arrival", "");
    }
    double last_at = 0;
    std::int64_t last_dep = points.front().departure;
    for (std::size_t k = 1; k < p.list.size(); ++k) {
      auto const& q = p.list[k];
      auto const length = q.at - p.list[k - 1].at;
      auto const limit = std::min(mps(il[k].limit_left_), ph.vmax);
      auto const target = q.point >= 0 ? 0.0 : std::min(mps(il[k].limit_right_), ph.vmax);
      double end = 0;
      auto const d = drive_interval(ph, length, v, limit, target, end);
      auto const start = now;
      now += d.samples.back().second;
      slack += 1.0;
      double departure = now;
      if (q.point >= 0) {
        auto const& sp = points[static_cast<std::size_t>(q.point)];
        departure = std::max(now + static_cast<double>(sp.stop_seconds), static_cast<double>(sp.departure));
      }
      for (; e < want.size() && want[e].interval == k; ++e) {
        std::ostringstream t;
        t << "event " << e << " at " << want[e].at << " m arrives " << arr(e) << " departs " << dep(e) << ", interval from "
          << p.list[k - 1].at << " to " << q.at << " limit " << limit << " from " << v << " to " << target << ", reference "
          << start + d.at_time(want[e].at - p.list[k - 1].at) << " slack " << slack;
        bool const border = want[e].at == q.at;
        if (q.point >= 0 && border) {
          auto const& sp = points[static_cast<std::size_t>(q.point)];
          bool const last = k + 1 == p.list.size();
          if (sp.departure >= 0) {
            c.check(dep(e) - arr(e) >= sp.stop_seconds, "time-min-stop", t.str());
            c.check(dep(e) >= sp.departure, "time-early-departure", t.str(), " planned ", sp.departure);
            c.check(dep(e) == std::max(sp.departure, arr(e) + sp.stop_seconds), "time-departure", t.str(), " planned ", sp.departure);
          } else {
            // only the last halt may come without a departure
            c.check(last && (dep(e) == -1 || dep(e) >= arr(e) + sp.stop_seconds), "time-no-departure", t.str());
          }
        } else {
          c.check(dep(e) == arr(e), "time-passing", t.str());
        }
        c.check(arr(e) >= last_dep || want[e].at == last_at, "time-order", t.str(), " after ", last_dep);
        auto const reference = start + d.at_time(want[e].at - p.list[k - 1].at);
        auto const diff = static_cast<double>(arr(e)) - reference;
        if (std::getenv("SHOW") != nullptr) std::printf("DIFF %.2f slack %.2f interval %zu v %.2f-%.2f-%.2f len %.1f\n", diff, slack, k, v, limit, target, length);
        c.check(diff >= -slack, "time-too-fast", t.str());
        c.check(diff <= 2 + 1.5 * slack + 0.01 * (reference - static_cast<double>(points.front().departure)), "time-too-slow", t.str());
        last_at = want[e].at;
        last_dep = dep(e);
        c.stat("events");
      }
      if (q.point >= 0) {
        if (departure > now) slack = departure > now + slack ? 1 : slack;
        now = departure;
        v = 0;
      } else {
        v = end;
      }
    }
  });
}
