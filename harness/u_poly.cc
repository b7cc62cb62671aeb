// U17: polynomials and piecewise functions of quantities
#include "common.h"

#include <cmath>

#include "soro/base/soro_types.h"
#include "soro/si/units.h"
#include "soro/rolling_stock/train_series.h"
#include "soro/utls/math/piecewise_function.h"
#include "soro/utls/math/polynomial.h"

namespace {

namespace u = soro::utls;
namespace si = soro::si;
namespace rs = soro::rs;

long double value(std::vector<double> const& f, double x) {
  long double r = 0, p = 1;
  for (auto i = f.size(); i-- > 0;) {
    r += p * f[i];
    p *= x;
  }
  return r;
}

long double magnitude(std::vector<double> const& f, double x) {
  long double r = 0, p = 1;
  for (auto i = f.size(); i-- > 0;) {
    r += std::abs(p * f[i]);
    p *= x;
  }
  return r;
}

bool near(double got, std::vector<double> const& f, double x) {
  return std::abs(static_cast<long double>(got) - value(f, x)) <= 1e-12L * magnitude(f, x);
}

double factor(vh::ctx& c) {
  switch (c.r.below(4)) {
    case 0: return 0.0;
    case 1: return static_cast<double>(c.r.in(-20, 20));
    case 2: return c.r.real(-1, 1);
    default: return c.r.real(-1e4, 1e4);
  }
}

CASES(U17) {
  std::vector<double> f;
  for (int i = 0; i < 5; ++i) f.push_back(factor(c));
  double const x = c.r.chance(20) ? 0.0 : c.r.real(-200, 200);
  c.sig(c.r.s_);
  auto const p0 = u::make_polynomial(double{f[0]});
  c.check(near(p0(x), {f[0]}, x), "polynomial-degree-0", p0(x), " at ", x);
  auto const p1 = u::make_polynomial(double{f[0]}, double{f[1]});
  c.check(near(p1(x), {f[0], f[1]}, x), "polynomial-degree-1", p1(x), " at ", x);
  auto const p2 = u::make_polynomial(double{f[0]}, double{f[1]}, double{f[2]});
  c.check(near(p2(x), {f[0], f[1], f[2]}, x), "polynomial-degree-2", p2(x), " at ", x);
  auto const p4 = u::make_polynomial(double{f[0]}, double{f[1]}, double{f[2]}, double{f[3]}, double{f[4]});
  c.check(near(p4(x), f, x), "polynomial-degree-4", p4(x), " at ", x);
  c.check(p0.degree() == 0 && p1.degree() == 1 && p2.degree() == 2 && p4.degree() == 4, "polynomial-degree");
  c.check(u::polynomial<>{}(x) == 0.0, "polynomial-empty");
  auto const t = u::make_polynomial(rs::tractive_force_3_t{f[0]}, rs::tractive_force_2_t{f[1]}, rs::tractive_force_1_t{f[2]});
  auto const r = t(si::speed{x});
  c.check(std::is_same_v<std::decay_t<decltype(r)>, si::force>, "polynomial-of-quantities-type");
  c.check(near(r.val_, {f[0], f[1], f[2]}, x), "polynomial-of-quantities", r.val_, " at ", x);
  c.stat("polynomials");
  c.nontrivial();
}

template <typename In, typename Make>
void piecewise(vh::ctx& c, Make const& make) {
  auto const n = 1 + c.r.below(6);
  std::vector<double> bounds{c.r.chance(50) ? 0.0 : c.r.real(-50, 50)};
  std::vector<std::vector<double>> fs;
  using piece_t = decltype(u::make_piece(make(std::vector<double>(3)), In{0.0}, In{0.0}));
  soro::vector<piece_t> ps;
  for (std::size_t i = 0; i < n; ++i) {
    std::vector<double> f{factor(c), factor(c), factor(c)};
    auto const to = bounds.back() + (c.r.chance(20) ? 0.02 : c.r.real(0.5, 60));
    auto const gap = c.r.chance(30) ? c.r.real(-0.009, 0.009) : 0.0;
    ps.push_back(u::make_piece(make(f), In{i == 0 ? bounds.back() : bounds.back() + gap}, In{to}));
    fs.push_back(f);
    bounds.push_back(to);
  }
  auto const val = [](auto const& v) {
    if constexpr (std::is_floating_point_v<std::decay_t<decltype(v)>>) return v;
    else return v.val_;
  };
  auto copy = ps;
  c.check(u::is_continuous(ps), "continuous-accepted");
  auto const fn = u::make_piecewise(std::move(copy));
  auto const judge = [&](double const x) {
    std::size_t k = 0;
    while (k < n && !(x < bounds[k + 1])) ++k;
    bool thrown = false;
    double got = 0;
    try {
      got = val(fn(In{x}));
    } catch (std::exception const&) {
      thrown = true;
    }
    c.eq(thrown, k == n, "piecewise-domain", x, " of ", bounds.front(), "..", bounds.back());
    if (!thrown && k < n) c.check(near(got, fs[k], x), "piecewise-value", "piece ", k, " at ", x, " gave ", got);
  };
  for (int i = 0; i < 12; ++i) judge(c.r.real(bounds.front(), bounds.back()));
  for (std::size_t i = 0; i <= n; ++i) {
    judge(bounds[i]);
    if (i > 0) judge(std::nextafter(bounds[i], -1e9));
  }
  judge(bounds.back() + c.r.real(0, 100));
  // a gap or an overlap is detected
  if (n > 1) {
    auto broken = ps;
    auto const at = 1 + c.r.below(n - 1);
    auto const d = c.r.chance(50) ? c.r.real(0.02, 5) : -c.r.real(0.02, 5);
    broken[at].from_ = In{bounds[at] + d};
    c.check(!u::is_continuous(broken), "gap-accepted", at, " by ", d);
#if !defined(NDEBUG)
    auto* old = std::clog.rdbuf(nullptr);
    bool thrown = false;
    try {
      static_cast<void>(u::make_piecewise(std::move(broken)));
    } catch (std::exception const&) {
      thrown = true;
    }
    std::clog.rdbuf(old);
    c.check(thrown, "gap-not-thrown", at, " by ", d);
#endif
  }
  c.stat("pieces", n);
}

CASES(U17) {
  c.sig(c.r.s_);
  if (c.r.chance(50)) {
    piecewise<double>(c, [](std::vector<double> const& f) { return u::make_polynomial(double{f[0]}, double{f[1]}, double{f[2]}); });
  } else {
    piecewise<si::speed>(c, [](std::vector<double> const& f) {
      return u::make_polynomial(rs::tractive_force_3_t{f[0]}, rs::tractive_force_2_t{f[1]}, rs::tractive_force_1_t{f[2]});
    });
  }
  c.nontrivial();
}

}  // namespace
