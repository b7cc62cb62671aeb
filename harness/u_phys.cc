// links: src/runtime/runtime_physics.cc src/rolling_stock/train_physics.cc
// R03: the phases of a run follow the equations of motion.
#include "common.h"

#include <cmath>

#include "soro/runtime/runtime_physics.h"

namespace si = soro::si;
namespace rs = soro::rs;

namespace {

constexpr double DT = 0.5;
constexpr double BRAKE = 0.7;

struct piece_spec {
  double a, b, c, from, to;
};

struct vehicle_spec {
  std::vector<piece_spec> pull;
  double ra, rb, rc;
  double vmax;
};

struct train_spec {
  std::vector<vehicle_spec> vehicles;
  double weight, length, vmax;
  bool ctc, freight;

  double top() const {
    double v = vmax;
    for (auto const& x : vehicles) v = std::min(v, x.vmax);
    return v;
  }
  // what pulls and what resists at speed v
  double pull(double v) const {
    double f = 0;
    for (auto const& x : vehicles) {
      for (auto const& p : x.pull) {
        if (v >= p.from && v < p.to) {
          f += p.a * v * v + p.b * v + p.c;
          break;
        }
      }
    }
    return f;
  }
  double resist(double v) const {
    double f = 0;
    for (auto const& x : vehicles) f += x.ra * v * v + x.rb * v + x.rc;
    return f;
  }
};

train_spec random_train(vh::ctx& c) {
  train_spec t{};
  t.weight = static_cast<double>(c.r.in(30, 2000)) * 1000;
  t.length = static_cast<double>(c.r.in(20, 700));
  t.vmax = static_cast<double>(c.r.in(20, 330)) / 3.6;
  t.ctc = c.r.chance(50);
  t.freight = c.r.chance(50);
  auto const n = 1 + c.r.below(3);
  bool const weak = c.r.chance(12);
  for (unsigned i = 0; i < n; ++i) {
    vehicle_spec v{};
    v.vmax = static_cast<double>(c.r.in(30, 330)) / 3.6;
    auto const pieces = 1 + c.r.below(3);
    double from = 0;
    auto const start = weak ? c.r.real(0, 3) : c.r.real(0.12, 1.2);  // m/s^2
    double force = start * t.weight / static_cast<double>(n);
    for (unsigned k = 0; k < pieces; ++k) {
      piece_spec p{};
      p.from = from;
      p.to = k + 1 == pieces ? 120 : from + c.r.real(3, 25);
      if (c.r.chance(40)) {
        p.c = force;
      } else {
        p.b = -force / 150;
        p.c = force - p.b * from;
      }
      if (c.r.chance(30)) {
        p.a = -force / 200000;
      }
      force = std::max(0.0, (p.a * p.to * p.to + p.b * p.to + p.c)) * c.r.real(0.6, 1.0);
      from = p.to;
      v.pull.push_back(p);
    }
    v.ra = c.r.real(0, 8);
    v.rb = c.r.real(0, 100);
    v.rc = weak ? c.r.real(0, 3) * t.weight : c.r.real(0, 0.02) * t.weight / static_cast<double>(n);
    t.vehicles.push_back(v);
  }
  return t;
}

rs::train_physics make(train_spec const& t) {
  soro::vector<rs::traction_vehicle> vs;
  for (auto const& x : t.vehicles) {
    rs::traction_vehicle v;
    v.name_ = "V";
    v.weight_ = si::from_kg(80000);
    v.max_speed_ = si::from_m_s(x.vmax);
    for (auto const& p : x.pull) {
      v.tractive_curve_.pieces_.push_back(soro::utls::make_piece(
          soro::utls::make_polynomial(rs::tractive_force_3_t{p.a}, rs::tractive_force_2_t{p.b}, rs::tractive_force_1_t{p.c}),
          si::from_m_s(p.from), si::from_m_s(p.to)));
    }
    v.resistance_curve_ = soro::utls::make_polynomial(rs::drag_coefficient_t{x.ra}, rs::dampening_resistance_t{x.rb},
                                                      rs::rolling_resistance_t{x.rc});
    vs.push_back(v);
  }
  auto const ctc = t.ctc ? rs::CTC::YES : rs::CTC::NO;
  auto const freight = t.freight ? rs::FreightTrain::YES : rs::FreightTrain::NO;
#if defined(SERIALIZE)
  rs::train_physics p;
  p.vehicles_ = vs;
  p.carriage_weight_ = si::from_kg(t.weight);
  p.length_ = si::from_m(t.length);
  p.max_speed_ = si::from_m_s(t.vmax);
  p.ctc_ = ctc;
  p.freight_ = freight;
  return p;
#else
  return {vs, si::from_kg(t.weight), si::from_m(t.length), si::from_m_s(t.vmax), ctc, freight};
#endif
}

bool near(double a, double b, double rel = 1e-9) { return std::abs(a - b) <= rel * std::max({1.0, std::abs(a), std::abs(b)}); }

double s_of(soro::runtime_result const& r) { return r.time_.val_; }
double m_of(soro::runtime_result const& r) { return r.distance_.val_; }
double v_of(soro::runtime_result const& r) { return r.speed_.val_; }

std::string show(train_spec const& t) {
  std::ostringstream s;
  s << t.vehicles.size() << " vehicles " << t.weight << " kg top " << t.top();
  return s.str();
}

}  // namespace

// what a train is made of
CASES(R03) {
  auto const t = random_train(c);
  auto const p = make(t);
  c.sig(c.r.s_);
  c.nontrivial();
  c.check(near(p.weight().val_, t.weight), "train-weight", show(t));
  c.check(near(p.length().val_, t.length), "train-length", show(t));
  c.check(near(p.max_speed().val_, t.top()), "train-top-speed", p.max_speed().val_, " ", show(t));
  c.check((p.ctc() == rs::CTC::YES) == t.ctc && (p.freight() == rs::FreightTrain::YES) == t.freight, "train-kind", show(t));
  c.check(near(p.deacceleration().val_, -BRAKE), "train-braking", p.deacceleration().val_);
  for (int i = 0; i < 20; ++i) {
    auto const v = c.r.chance(20) ? t.vehicles[c.r.below(t.vehicles.size())].pull.front().to : c.r.real(0, 110);
    if (v >= 120) continue;
    c.check(near(p.tractive_force(si::from_m_s(v)).val_, t.pull(v), 1e-6), "train-pull", p.tractive_force(si::from_m_s(v)).val_,
            " expected ", t.pull(v), " at ", v, " ", show(t));
    c.check(near(p.resistive_force(si::from_m_s(v)).val_, t.resist(v), 1e-6), "train-resistance",
            p.resistive_force(si::from_m_s(v)).val_, " expected ", t.resist(v), " at ", v);
  }
}

// acceleration: force over mass in steps of half a second, up to the speed or the distance
CASES(R03) {
  auto const t = random_train(c);
  auto const p = make(t);
  auto const v0 = c.r.chance(40) ? 0.0 : c.r.real(0, t.top());
  auto const v1 = c.r.chance(10) ? v0 : c.r.chance(20) ? t.top() + 5 : v0 + c.r.real(0, 60);
  auto const dist = c.r.chance(10) ? c.r.real(0, 2) : c.r.chance(40) ? c.r.real(0, 400) : c.r.real(0, 20000);
  c.sig(c.r.s_);
  // reference: until the speed or the distance is reached
  std::vector<std::array<double, 3>> want{{0, 0, v0}};
  bool weak = false;
  auto const stop = std::min(v1, t.top());
  bool tight = std::abs(v0 - stop) < 1e-6;
  while (want.back()[2] < stop && want.back()[1] < dist) {
    auto const [s, m, v] = want.back();
    auto const a = (t.pull(v) - t.resist(v)) / (t.weight * 1.06);
    auto const next = v + a * DT;
    if (std::abs(next) < 1e-6) tight = true;
    if (next <= 0) {
      weak = true;
      break;
    }
    if (want.size() > 20000) {
      c.stat("stalled");
      return;  // balanced forces: never gets there
    }
    if (next <= v && std::abs(a) < 1e-9) return;
    want.push_back({s + DT, m + (v + next) / 2 * DT, next});
    if (std::abs(next - stop) < 1e-6 || std::abs(want.back()[1] - dist) < 1e-6) tight = true;
    // next to a jump of the tractive curve rounding decides
    for (auto const& x : t.vehicles) {
      for (auto const& q : x.pull) tight = tight || std::abs(next - q.to) < 1e-6;
    }
  }
  if (tight) return;
  auto const [es, em, ev] = want.back();
  soro::runtime_results got;
  try {
    got = soro::accelerate(p, si::from_m_s(v0), si::from_m_s(v1), si::from_m(dist));
  } catch (std::exception const& e) {
    c.check(weak, "accelerate-refused", e.what(), " ", show(t), " from ", v0, " to ", v1);
    if (weak) c.stat("too_weak");
    return;
  }
  if (!c.check(!weak, "accelerate-too-weak", show(t), " from ", v0, " to ", v1)) return;
  if (want.size() > 3) c.nontrivial();
  bool const over = em > dist;
  c.stat(over ? "by_distance" : "by_speed");
  if (over) {
    want.pop_back();
    if (want.size() > 1) want.back()[1] = dist;
  }
  std::ostringstream o;
  o << show(t) << " from " << v0 << " to " << v1 << " within " << dist;
  if (!c.eq(got.size(), want.size(), "accelerate-steps", o.str())) return;
  for (std::size_t i = 0; i < want.size(); ++i) {
    c.check(near(s_of(got[i]), want[i][0]), "accelerate-time", i, " got ", s_of(got[i]), " ", o.str());
    c.check(near(m_of(got[i]), want[i][1], 1e-7), "accelerate-distance", i, " got ", m_of(got[i]), " expected ", want[i][1], " ", o.str());
    c.check(near(v_of(got[i]), want[i][2], 1e-7), "accelerate-speed", i, " got ", v_of(got[i]), " expected ", want[i][2], " ", o.str());
    c.check(m_of(got[i]) <= dist + 1e-6, "accelerate-too-far", i, " ", m_of(got[i]), " ", o.str());
  }
}

// braking: constant deceleration down to the target speed, over the exact distance
CASES(R03) {
  auto const t = random_train(c);
  auto const p = make(t);
  auto const v1 = c.r.chance(40) ? 0.0 : c.r.real(0, 60);
  auto const v0 = c.r.chance(15) ? v1 + c.r.real(0.01, 0.5) : v1 + c.r.real(0.1, 40);
  c.sig(c.r.s_);
  c.nontrivial();
  auto const total = (v0 - v1) / BRAKE;
  auto const length = (v0 * v0 - v1 * v1) / (2 * BRAKE);
  if (std::abs(total / DT - std::round(total / DT)) < 1e-6) return;
  auto const got = soro::brake(p, si::from_m_s(v0), si::from_m_s(v1));
  std::ostringstream o;
  o << "from " << v0 << " to " << v1;
  auto const steps = static_cast<std::size_t>(std::ceil(total / DT)) + 1;
  if (!c.eq(got.size(), steps, "brake-steps", o.str())) return;
  for (std::size_t i = 0; i < got.size(); ++i) {
    auto const s = static_cast<double>(i) * DT;
    c.check(near(s_of(got[i]), s), "brake-time", i, " ", s_of(got[i]), " ", o.str());
    if (i + 1 == got.size()) continue;
    c.check(near(v_of(got[i]), v0 - BRAKE * s, 1e-7), "brake-speed", i, " ", v_of(got[i]), " ", o.str());
    // between the exact position and the one reached with the speed at the start of every step
    auto const exact = v0 * s - BRAKE * s * s / 2;
    c.check(m_of(got[i]) >= exact - 1e-6 && m_of(got[i]) <= exact + BRAKE * DT * s / 2 + 1e-6, "brake-distance", i, " ",
            m_of(got[i]), " exact ", exact, " ", o.str());
  }
  c.check(near(m_of(got.back()), length, 1e-7), "brake-length", m_of(got.back()), " expected ", length, " ", o.str());
  c.check(near(v_of(got.back()), v1), "brake-end-speed", v_of(got.back()), " ", o.str());
  c.stat("brakes");
  // no braking towards a higher or the same speed
  bool refused = false;
  try {
    soro::brake(p, si::from_m_s(v1), si::from_m_s(c.r.chance(50) ? v0 : v1));
  } catch (std::exception const&) {
    refused = true;
  }
  c.check(refused, "brake-upwards", o.str());
}

// coasting: constant speed to the end of the distance
CASES(R03) {
  auto const v = c.r.real(0.5, 90);
  auto const dist = c.r.chance(10) ? 0.0 : c.r.chance(20) ? c.r.real(0.001, v) : c.r.real(0.1, 9000);
  c.sig(c.r.s_);
  if (dist > 0) c.nontrivial();
  auto const exact = dist / v / DT;
  if (dist > 0 && std::abs(exact - std::round(exact)) < 1e-6) return;
  auto const got = soro::coast(si::from_m_s(v), si::from_m(dist));
  std::ostringstream o;
  o << dist << " m at " << v;
  auto const steps = static_cast<std::size_t>(std::ceil(exact)) + 1;
  if (!c.eq(got.size(), steps, "coast-steps", o.str())) return;
  for (std::size_t i = 0; i < got.size(); ++i) {
    auto const s = static_cast<double>(i) * DT;
    c.check(near(v_of(got[i]), v), "coast-speed", i, " ", v_of(got[i]), " ", o.str());
    c.check(near(s_of(got[i]), s), "coast-time", i, " ", s_of(got[i]), " ", o.str());
    c.check(near(m_of(got[i]), i + 1 == got.size() ? dist : v * s, 1e-7), "coast-distance", i, " ", m_of(got[i]), " ", o.str());
  }
  c.stat("coasts");
}
