// U09: physical quantities, strong types, speeds of the simulation
#include "common.h"

#include <cmath>
#include <limits>
#include <sstream>

#include "soro/base/soro_types.h"
#include "soro/base/fp_precision.h"
#include "soro/rolling_stock/ctc.h"
#include "soro/rolling_stock/freight.h"
#include "soro/si/constants.h"
#include "soro/si/units.h"
#include "soro/simulation/granularity.h"
#include "soro/simulation/kilometer_per_hour.h"
#include "soro/simulation/simulation_options.h"
#include "soro/utls/strong_types/strong_type.h"
#include "soro/utls/unixtime.h"

namespace {

namespace si = soro::si;
namespace u = soro::utls;
namespace sim = soro::simulation;

bool near(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b));
}

double some_real(vh::ctx& c) {
  switch (c.r.below(5)) {
    case 0: return static_cast<double>(c.r.in(-1000, 1000));
    case 1: return c.r.real(-1.0, 1.0);
    case 2: return c.r.real(-1e6, 1e6);
    case 3: return c.r.real(-1e-3, 1e-3);
    default: return 0.0;
  }
}

struct m_tag;

template <typename T>
void strong(vh::ctx& c, T x, T y) {
  using st = u::strong_type<T, m_tag>;
  st const a{x}, b{y};
  auto const t = [&](st const& got, T want, char const* what) {
    c.check(got.val_ == want, "strong-result", what, ' ', +x, ' ', +y, " gives ", +got.val_);
    c.check(a.val_ == x && b.val_ == y, "strong-operands-kept", what);
  };
  // lvalues that are not const, so that a careless operator could modify them
  st la{x}, lb{y};
  t(la + lb, static_cast<T>(x + y), "+");
  c.check(la.val_ == x && lb.val_ == y, "strong-operands-kept", "+");
  t(la - lb, static_cast<T>(x - y), "-");
  c.check(la.val_ == x && lb.val_ == y, "strong-operands-kept", "-");
  t(la * lb, static_cast<T>(x * y), "*");
  c.check(la.val_ == x && lb.val_ == y, "strong-operands-kept", "*");
  if (y != 0) {
    t(la / lb, static_cast<T>(x / y), "/");
    c.check(la.val_ == x && lb.val_ == y, "strong-operands-kept", "/");
    st d{x};
    auto& rd = (d /= b);
    c.check(&rd == &d && d.val_ == static_cast<T>(x / y), "strong-assign", "/=");
  }
  st p{x};
  auto& rp = (p += b);
  c.check(&rp == &p && p.val_ == static_cast<T>(x + y), "strong-assign", "+=");
  st m{x};
  auto& rm = (m -= b);
  c.check(&rm == &m && m.val_ == static_cast<T>(x - y), "strong-assign", "-=");
  st q{x};
  auto& rq = (q *= b);
  c.check(&rq == &q && q.val_ == static_cast<T>(x * y), "strong-assign", "*=");
  c.eq(a < b, x < y, "strong-order", "<");
  c.eq(a <= b, x <= y, "strong-order", "<=");
  c.eq(a > b, x > y, "strong-order", ">");
  c.eq(a >= b, x >= y, "strong-order", ">=");
  c.eq(a == b, x == y, "strong-order", "==");
  c.eq(a != b, x != y, "strong-order", "!=");
  c.check(std::is_same_v<typename st::precision_t, T>, "strong-precision");
}

CASES(U09) {
  switch (c.r.below(4)) {
    case 0: strong<int>(c, static_cast<int>(c.r.in(-20000, 20000)), static_cast<int>(c.r.in(-300, 300))); break;
    case 1: strong<std::int64_t>(c, c.r.in(-1000000000, 1000000000), c.r.in(-1000000000, 1000000000)); break;
    case 2: strong<double>(c, some_real(c), some_real(c)); break;
    default: strong<unsigned>(c, static_cast<unsigned>(c.r.below(1ull << 32)), static_cast<unsigned>(c.r.below(1ull << 32)));
  }
  c.sig(c.r.s_);
  c.stat("strong");
  c.nontrivial();
}

template <typename A, typename B>
constexpr bool same = std::is_same_v<A, B>;

// number of each base unit in the dimension of a quantity
template <typename F>
struct dim;
template <typename N, typename D, typename P>
struct dim<u::fraction<N, D, P>> {
  template <typename Tag>
  static constexpr int of() {
    return static_cast<int>(u::count_v<Tag, N>) - static_cast<int>(u::count_v<Tag, D>);
  }
  template <typename Tag>
  static constexpr bool reduced() {
    return u::count_v<Tag, N> == 0 || u::count_v<Tag, D> == 0;
  }
  static std::array<int, 4> all() {
    return {of<u::meter_tag>(), of<u::second_tag>(), of<u::kilogram_tag>(), of<u::ampere_tag>()};
  }
  static bool simple() {
    return reduced<u::meter_tag>() && reduced<u::second_tag>() && reduced<u::kilogram_tag>() &&
           reduced<u::ampere_tag>();
  }
};

std::string unit_text(std::array<int, 4> d) {
  static char const* const sym[] = {"m", "s", "kg", "A"};
  static char const* const sup[] = {"", "", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹"};
  std::string n, m;
  for (int i = 0; i < 4; ++i) {
    auto& s = d[i] > 0 ? n : m;
    if (d[i] != 0) s += (s.empty() ? "" : "*") + std::string{sym[i]} + sup[std::abs(d[i])];
  }
  if (m.empty()) return "[" + n + "]";
  return "[" + (n.empty() ? "1" : n) + "/" + m + "]";
}

template <typename A, typename B>
void product(vh::ctx& c, A a, B b) {
  auto const m = a * b;
  auto const q = a / b;
  auto da = dim<A>::all(), db = dim<B>::all();
  auto dm = dim<std::decay_t<decltype(m)>>::all(), dq = dim<std::decay_t<decltype(q)>>::all();
  for (int i = 0; i < 4; ++i) {
    c.eq(dm[i], da[i] + db[i], "dimension-of-product", i);
    c.eq(dq[i], da[i] - db[i], "dimension-of-quotient", i);
  }
  c.check(dim<std::decay_t<decltype(m)>>::simple(), "product-reduced");
  c.check(dim<std::decay_t<decltype(q)>>::simple(), "quotient-reduced");
  c.check(near(m.val_, a.val_ * b.val_), "product-value", a.val_, '*', b.val_, " = ", m.val_);
  if (b.val_ != 0.0) {
    c.check(near(q.val_, a.val_ / b.val_), "quotient-value", a.val_, '/', b.val_, " = ", q.val_);
  }
  std::ostringstream s;
  s << m;
  c.check(s.str() == std::to_string(m.val_) + unit_text(dm), "quantity-text", s.str());
  c.eq(q.to_string(), std::to_string(q.val_) + unit_text(dq), "quantity-text");
}

template <typename Q>
void quantity(vh::ctx& c, double x, double y, double k) {
  Q const a{x}, b{y};
  c.check((a + b).val_ == x + y, "add", x, ' ', y);
  c.check((a - b).val_ == x - y, "subtract", x, ' ', y);
  c.check((-a).val_ == -x, "negate", x);
  c.check((a * k).val_ == x * k && (k * a).val_ == x * k, "scale", x, ' ', k);
  Q d{x};
  d += b;
  c.check(d.val_ == x + y, "add-assign", x, ' ', y);
  d = a;
  d -= b;
  c.check(d.val_ == x - y, "subtract-assign", x, ' ', y);
  d = a;
  d *= k;
  c.check(d.val_ == x * k, "scale-assign", x, ' ', k);
  c.check(a.val_ == x && b.val_ == y, "quantity-operands-kept");
  c.eq(a < b, x < y, "quantity-order", x, '<', y);
  c.eq(a > b, x > y, "quantity-order", x, '>', y);
  c.eq(a <= b, x <= y, "quantity-order", x, "<=", y);
  c.eq(a >= b, x >= y, "quantity-order", x, ">=", y);
  c.check(a == a && !(a != a), "quantity-equal-self", x);
  auto const diff = std::abs(x - y);
  if (diff > 0.0101) c.check(!(a == b) && a != b, "quantity-differ", x, ' ', y);
  if (diff < 0.0099) c.check(a == b && !(a != b), "quantity-equal", x, ' ', y);
  c.check((a == b) == (b == a) && (a == b) == !(a != b), "quantity-eq-symmetric", x, ' ', y);
  c.check(abs(a).val_ == std::abs(x), "abs", x);
  c.check(si::valid(a) && !si::valid(si::INVALID<Q>), "valid", x);
  c.check(!si::valid(Q{}), "default-invalid");
  c.check(si::ZERO<Q>.val_ == 0.0 && si::is_zero(si::ZERO<Q>), "zero");
  if (std::abs(x) > 0.0101) c.check(!si::is_zero(a), "is-zero", x);
  if (std::abs(x) < 0.0099) c.check(si::is_zero(a), "is-zero", x);
  c.eq(u::equal(a, x), true, "equal-to-number");
  c.check(u::template pow<1>(a).val_ == x, "pow1");
  c.check(near(u::template pow<2>(a).val_, x * x), "pow2", x);
  c.check(near(u::template pow<3>(a).val_, x * x * x), "pow3", x);
  c.check(near(a.template pow<2>().val_, x * x), "member-pow2", x);
  c.check(near(a.template pow<3>().val_, x * x * x), "member-pow3", x);
  c.check(same<std::decay_t<decltype(a.template pow<2>())>, std::decay_t<decltype(a * a)>>, "pow-type");
  c.check(same<std::decay_t<decltype(u::template pow<3>(a))>, std::decay_t<decltype(a * (a * a))>>,
          "pow-type");
  c.check(u::is_fraction_v<Q> && !u::is_fraction_v<double>, "is-fraction");
}

CASES(U09) {
  auto const x = some_real(c);
  double y = some_real(c);
  if (c.r.chance(30)) y = x + c.r.real(-0.02, 0.02);
  auto const k = some_real(c);
  c.sig(std::hash<double>{}(x) ^ (std::hash<double>{}(y) << 1));
  c.stat("quantities");
  switch (c.r.below(5)) {
    case 0: quantity<si::length>(c, x, y, k); break;
    case 1: quantity<si::time>(c, x, y, k); break;
    case 2: quantity<si::speed>(c, x, y, k); break;
    case 3: quantity<si::force>(c, x, y, k); break;
    default: quantity<si::unitless>(c, x, y, k);
  }
  switch (c.r.below(8)) {
    case 0: product(c, si::length{x}, si::time{y}); break;
    case 1: product(c, si::speed{x}, si::time{y}); break;
    case 2: product(c, si::speed{x}, si::speed{y}); break;
    case 3: product(c, si::weight{x}, si::acceleration{y}); break;
    case 4: product(c, si::force{x}, si::length{y}); break;
    case 5: product(c, si::current{x}, si::force{y}); break;
    case 6: product(c, si::unitless{x}, si::acceleration{y}); break;
    default: product(c, si::area{x}, si::acceleration{y});
  }
  // units of high powers multiply, divide and print like all others
  {
    si::length const m{x};
    si::time const t{y};
    auto const m2 = m * m;
    auto const m4 = m2 * m2;
    auto const m5 = m4 * m;
    auto const t3 = t * t * t;
    switch (c.r.below(9)) {
      case 0: product(c, m5, m4); break;
      case 1: product(c, m4, m4); break;
      case 2: product(c, m4, m5); break;
      case 3: product(c, m4 * t, m5 / t); break;
      case 4: product(c, m5 / (t3 * t), m4 / (t3 * t * t)); break;
      case 5: product(c, si::force{k} * si::force{k} * si::force{k} * si::force{k}, si::weight{k} * si::weight{k} * si::weight{k} * si::weight{k} * si::weight{k}); break;
      case 6: product(c, m4, t3 * t3 * t3); break;
      case 7: product(c, si::current{x} / t3, m4 * m4); break;
      default: product(c, m5 * t3, m2 * t3);
    }
    c.check(same<decltype(m5 / m4), si::length> && same<decltype(m4 / m4), si::unitless> &&
                same<decltype(m5 * t3 / (m4 * t3 * t)), si::speed>,
            "quotient-of-high-powers");
    c.check(same<std::decay_t<decltype(m.template pow<9>())>, std::decay_t<decltype(m4 * m5)>>, "pow-type");
    c.check(same<std::decay_t<decltype((m / t).template pow<5>() / (m / t).template pow<4>())>, si::speed>, "pow-type");
  }
  c.check(same<decltype(si::length{} / si::time{}), si::speed>, "speed-is-length-by-time");
  c.check(same<decltype(si::acceleration{} * si::time{}), si::speed>, "acceleration-by-time");
  c.check(same<decltype(si::speed{} * si::time{}), si::length>, "speed-by-time");
  c.check(same<decltype(si::area{} / si::length{}), si::length>, "area-by-length");
  c.check(same<decltype(si::length{} / si::length{}), si::unitless>, "length-by-length");
  c.check(si::unitless{}.is_unitless() && !si::length{}.is_unitless() && !si::speed{}.is_unitless(),
          "is-unitless");
  c.check(si::speed{}.is_fraction() && !si::length{}.is_fraction(), "has-denominator");
  c.check(si::speed{}.is<si::speed>() && !si::speed{}.is<si::length>(), "is-unit");

  // conversions there and back
  c.check(si::from_m(x).val_ == x && si::as_m(si::from_m(x)) == x, "meters", x);
  c.check(near(si::from_km(x).val_, x * 1000.0), "kilometers", x);
  c.check(si::from_s(x).val_ == x && si::as_s(si::from_s(x)) == x, "seconds", x);
  c.check(si::from_m_s(x).val_ == x, "meters-per-second", x);
  c.check(near(si::from_km_h(x).val_, x * 1000.0 / 3600.0), "kilometers-per-hour", x);
  c.check(near(si::as_km_h(si::from_km_h(x)), x), "kilometers-per-hour-back", x);
  c.check(near(si::as_km_h(si::from_m_s(x)), x * 3600.0 / 1000.0), "as-kilometers-per-hour", x);
  c.check(si::from_kg(x).val_ == x && near(si::from_ton(x).val_, x * 1000.0), "weights", x);
  c.check(near(si::as_ton(si::from_ton(x)), x), "tons-back", x);
  c.check(si::from_m_s2(x).val_ == x, "accelerations", x);
  c.check(si::as_precision(si::unitless{x}) == x, "unitless", x);
  c.check(near(si::GRAVITATIONAL.val_, 9.81) && near(si::MASS_FACTOR.val_, 1.06), "constants");

  // comparing floating point numbers with tolerance: what differs by the tolerance is different
  {
    constexpr auto P = soro::FP_PRECISION<double>;
    constexpr auto F = soro::FP_PRECISION<float>;
    c.check(!soro::equal(0.0, P) && !soro::equal(P, 0.0) && !soro::equal(0.0, -P) && !soro::zero(P) && !soro::zero(-P) &&
                !soro::equal(0.0F, F) && !soro::equal(-F, 0.0F),
            "fp-equal-boundary");
    auto const in = std::nextafter(P, 0.0);
    c.check(soro::equal(0.0, in) && soro::equal(-in, 0.0) && soro::zero(in), "fp-equal-boundary");
  }
  c.check(soro::equal(x, x), "fp-equal-self", x);
  c.check(soro::equal(x, y) == soro::equal(y, x), "fp-equal-symmetric", x, ' ', y);
  auto const diff = std::abs(x - y);
  if (diff > 0.0101) c.check(!soro::equal(x, y), "fp-equal-far", x, ' ', y);
  if (diff < 0.0099) c.check(soro::equal(x, y), "fp-equal-near", x, ' ', y);
  c.check(soro::zero(0.0) && soro::zero(-0.0) && soro::zero(0.0F), "fp-zero");
  if (std::abs(x) > 0.0101) c.check(!soro::zero(x), "fp-zero-far", x);
  if (std::abs(x) < 0.0099) c.check(soro::zero(x), "fp-zero-near", x);
  auto const fx = static_cast<float>(c.r.real(-10, 10));
  auto const fd = static_cast<float>(c.r.real(-0.03, 0.03));
  if (std::abs(fd) > 0.0102F) c.check(!soro::equal(fx, fx + fd), "fp-equal-far-float", fx, ' ', fd);
  if (std::abs(fd) < 0.0098F) c.check(soro::equal(fx, fx + fd), "fp-equal-near-float", fx, ' ', fd);
  c.nontrivial();
}

CASES(U09) {
  using kmh = sim::kilometer_per_hour;
  auto const a = static_cast<std::uint16_t>(c.r.chance(50) ? c.r.below(400) : c.r.below(65536));
  auto const b = static_cast<std::uint16_t>(c.r.chance(50) ? c.r.below(400) : c.r.below(65536));
  kmh const x{a}, y{b};
  c.sig((std::uint64_t{a} << 16) | b);
  c.stat("speeds");
  c.eq(kmh{static_cast<int>(a)}.km_h_, a, "kmh-from-int");
  c.eq(kmh{static_cast<std::size_t>(a)}.km_h_, a, "kmh-from-size");
  if (a + b <= 65535) {
    c.eq((x + y).km_h_, a + b, "kmh-add");
    kmh z{a};
    auto& r = (z += y);
    c.check(&r == &z, "kmh-add-assign-self");
    c.eq(z.km_h_, a + b, "kmh-add-assign");
  }
  if (a >= b) c.eq((x - y).km_h_, a - b, "kmh-subtract");
  if (b != 0) {
    c.eq((x / y).km_h_, a / b, "kmh-divide");
    c.eq((x % y).km_h_, a % b, "kmh-modulo");
  }
  if (a < 65535) {
    kmh z{a};
    auto& r = ++z;
    c.check(&r == &z && z.km_h_ == a + 1, "kmh-increment", a);
  }
  c.check(x.km_h_ == a && y.km_h_ == b, "kmh-operands-kept");
  c.check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) &&
              (x == y) == (a == b) && (x != y) == (a != b),
          "kmh-order", a, ' ', b);
  c.eq(static_cast<std::size_t>(x), std::size_t{a}, "kmh-size");
  c.check(static_cast<float>(x) == static_cast<float>(a), "kmh-float", a);
  std::ostringstream s;
  s << x;
  c.eq(s.str(), std::to_string(a) + "[km/h]", "kmh-text");
  c.eq(sim::ZERO_KMH.km_h_, 0, "kmh-zero");
  c.eq(kmh{}.km_h_, 65535, "kmh-default");
  c.eq(sim::default_granularity::get<kmh>().km_h_, 1, "kmh-granularity");
  c.check(sim::default_granularity::get<u::unixtime>() == u::unixtime{6}, "unixtime-granularity");
  c.check(sim::default_granularity::get<u::duration>() == u::duration{6}, "duration-granularity");
  c.check(sim::granularity<kmh>{}.g_ == kmh{1}, "kmh-granularity-type");

  sim::simulation_options o;
  c.check(o.use_halt_dists() && o.use_runtime_dists(), "simulation-options-default");
  bool const h = c.r.chance(50), r = c.r.chance(50);
  o.enable_halt_dists_ = h ? sim::enable_halt_dists::On : sim::enable_halt_dists::Off;
  o.enable_runtime_dists_ = r ? sim::enable_runtime_dists::On : sim::enable_runtime_dists::Off;
  c.check(o.use_halt_dists() == h && o.use_runtime_dists() == r, "simulation-options", h, r);
  c.check(static_cast<bool>(soro::rs::FreightTrain::YES) && !static_cast<bool>(soro::rs::FreightTrain::NO) &&
              static_cast<bool>(soro::rs::CTC::YES) && !static_cast<bool>(soro::rs::CTC::NO),
          "train-kind-flags");
  c.nontrivial();
}

}  // namespace
