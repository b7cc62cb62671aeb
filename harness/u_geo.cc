// U03: geographic coordinates
#include "common.h"

#include <cmath>
#include <list>
#include <vector>

#include "soro/utls/coordinates/cartesian.h"
#include "soro/utls/coordinates/gps.h"
#include "soro/utls/coordinates/polar.h"

namespace {

using soro::utls::cartesian;
using soro::utls::gps;
using soro::utls::polar;
using ld = long double;

constexpr ld LIB_PI = soro::utls::PI;
constexpr ld TRUE_PI = 3.14159265358979323846264338327950288L;
constexpr ld R = 6378137.0L;

struct vec {
  ld x, y, z;
};
vec unit(gps const& g, ld pi) {
  ld const lat = g.lat_ * pi / 180, lon = g.lon_ * pi / 180;
  return {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)};
}
// angle between two directions, stable for small and large angles
ld angle(vec a, vec b) {
  vec const cr{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
  return std::atan2(std::sqrt(cr.x * cr.x + cr.y * cr.y + cr.z * cr.z),
                    a.x * b.x + a.y * b.y + a.z * b.z);
}

gps random_gps(vh::ctx& c) {
  switch (c.r.below(6)) {
    case 2:  // near the antimeridian and anywhere else
      return {.lon_ = (c.r.chance(50) ? 1 : -1) * c.r.real(170.0, 179.99), .lat_ = c.r.real(-80, 80)};
    case 3: return {.lon_ = c.r.real(-179.99, 179.99), .lat_ = c.r.real(-89.5, 89.5)};
    case 0:  // Germany
      return {.lon_ = c.r.real(5.8, 15.1), .lat_ = c.r.real(47.2, 55.1)};
    case 1:
      return {.lon_ = static_cast<double>(c.r.in(-89, 89)),
              .lat_ = static_cast<double>(c.r.in(-84, 84))};
    default:
      return {.lon_ = c.r.real(-89, 89), .lat_ = c.r.real(-84, 84)};
  }
}

double norm360(double d) {
  d = std::fmod(d, 360.0);
  return d < 0 ? d + 360 : d;
}
double angle_diff(double a, double b) {
  auto const d = std::abs(norm360(a) - norm360(b));
  return std::min(d, 360 - d);
}

CASES(U03) {
  for (int i = 0; i < 40; ++i) {
    auto const a = random_gps(c);
    auto b = random_gps(c);
    if (c.r.chance(30)) b = {.lon_ = a.lon_ + c.r.real(-0.05, 0.05), .lat_ = a.lat_ + c.r.real(-0.05, 0.05)};
    if (c.r.chance(10)) {  // a hand's breadth away
      auto const far = std::pow(10.0, c.r.real(-9.5, -5.0));
      b = {.lon_ = a.lon_ + (c.r.chance(30) ? 0.0 : c.r.real(-far, far)), .lat_ = a.lat_ + c.r.real(-far, far)};
    } else if (c.r.chance(5)) {  // on the other side
      b = {.lon_ = a.lon_ > 0 ? a.lon_ - 180.0 : a.lon_ + 180.0, .lat_ = -a.lat_};
    }
    if (i == 0) {
      c.sig(static_cast<std::uint64_t>(a.lon_ * 1e9));
      c.note("pair (" + std::to_string(a.lat_) + "," + std::to_string(a.lon_) + ") (" +
             std::to_string(b.lat_) + "," + std::to_string(b.lon_) + ")");
    }
    c.nontrivial();
    // position on the sphere and back
    auto const p = a.to_cartesian();
    auto const u = unit(a, LIB_PI);
    c.check(std::abs(p.x_ - R * u.x) < 1e-3L && std::abs(p.y_ - R * u.y) < 1e-3L &&
                std::abs(p.z_ - R * u.z) < 1e-3L,
            "cartesian-position", "lat ", a.lat_, " lon ", a.lon_, " -> ", p.x_, ",", p.y_, ",", p.z_);
    auto const back = p.to_gps();
    c.check(std::abs(back.lat_ - a.lat_) < 1e-7 && std::abs(back.lon_ - a.lon_) < 1e-7,
            "cartesian-round-trip", "lat ", a.lat_, " lon ", a.lon_, " -> ", back.lat_, ",",
            back.lon_);
    // distance
    auto const d = a.distance(b);
    auto const want = R * angle(unit(a, LIB_PI), unit(b, LIB_PI));
    c.check(std::abs(d - want) < 1e-3L + want * 1e-7L, "distance-value", "from ", a.lat_, ",", a.lon_,
            " to ", b.lat_, ",", b.lon_, ": ", d, " expected ", static_cast<double>(want));
    auto const truth = R * angle(unit(a, TRUE_PI), unit(b, TRUE_PI));
    // (across the antimeridian: see distance-antimeridian below; the library's circle constant moves the places by up
    // to 300 m each, which near a pole is no small part of the way around it)
    auto const polar = std::max(std::abs(a.lat_), std::abs(b.lat_)) > 80.0 ? 600.0L : 0.0L;
    c.check(std::abs(a.lon_ - b.lon_) > 180.0 || std::abs(d - truth) < 0.5L + polar + truth * 1e-3L, "distance-off", "from ", a.lat_, ",", a.lon_,
            " to ", b.lat_, ",", b.lon_, ": ", d, " expected ", static_cast<double>(truth));
    c.check(std::abs(d - b.distance(a)) < 1e-6 * (1 + d), "distance-symmetric", d, " vs ",
            b.distance(a));
    c.check(a.distance(a) == 0.0, "distance-self", a.distance(a));
    c.check(d > 0.0 || want < 1e-5L, "distance-zero", a.lat_, ",", a.lon_, " and ", b.lat_, ",", b.lon_, " differ by ",
            static_cast<double>(want));
    if (want < 10.0L) {
      c.check(std::abs(d - want) < 1e-6L + want * 1e-5L, "distance-small", d, " expected ", static_cast<double>(want));
    }
    auto const third = random_gps(c);
    c.check(a.distance(third) <= d + b.distance(third) + 1e-3, "distance-triangle", "a=", a.lat_,
            ",", a.lon_);
    // moving a known way arrives there
    auto const dist = c.r.chance(50) ? c.r.real(1.0, 5000.0) : c.r.real(1000.0, 400000.0);
    auto const brg = c.r.chance(20) ? static_cast<double>(c.r.in(0, 7) * 45) : c.r.real(-180.0, 360.0);
    auto const m = a.move(dist, brg);
    c.check(std::abs(a.distance(m) - dist) < 1e-3 + dist * 1e-6, "move-distance", "from ", a.lat_, ",",
            a.lon_, " by ", dist, " at ", brg, " went ", a.distance(m));
    if (dist > 10.0) {
      c.check(angle_diff(a.bearing(m), brg) < 0.05, "move-bearing", "from ", a.lat_, ",", a.lon_,
              " by ", dist, " at ", brg, " bearing is ", a.bearing(m));
    }
    // bearing: initial direction on the sphere, independent construction
    if (d > 100.0) {
      auto const ua = unit(a, LIB_PI), ub = unit(b, LIB_PI);
      ld const lat = a.lat_ * LIB_PI / 180, lon = a.lon_ * LIB_PI / 180;
      vec const north{-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)};
      vec const east{-std::sin(lon), std::cos(lon), 0};
      vec const dd{ub.x - ua.x, ub.y - ua.y, ub.z - ua.z};
      auto const n = dd.x * north.x + dd.y * north.y + dd.z * north.z;
      auto const e = dd.x * east.x + dd.y * east.y + dd.z * east.z;
      auto const w = static_cast<double>(std::atan2(e, n) * 180 / TRUE_PI);
      c.check(angle_diff(a.bearing(b), w) < 0.02, "bearing-value", "from ", a.lat_, ",", a.lon_, " to ",
              b.lat_, ",", b.lon_, ": ", a.bearing(b), " expected ", w);
    }
    c.check(a.valid() && b.valid(), "valid-position", "reported invalid");
    c.stat("point_pairs");
  }
  c.check(!gps{}.valid(), "default-invalid", "a default position must be invalid");
  gps half{};
  half.lon_ = 8.0;
  c.check(!half.valid(), "half-invalid", "a position without latitude must be invalid");
  for (auto const& [lon, lat, ok] : {std::tuple{360.0, 360.0, true}, std::tuple{-360.0, -360.0, true},
                                      std::tuple{360.0001, 0.0, false}, std::tuple{-360.0001, 0.0, false},
                                      std::tuple{0.0, 360.0001, false}, std::tuple{0.0, -360.0001, false}}) {
    c.eq(gps{.lon_ = lon, .lat_ = lat}.valid(), ok, "valid-limit", lon, ",", lat);
  }
  c.check(gps{.lon_ = 180.0, .lat_ = 0.0}.distance(gps{.lon_ = -180.0, .lat_ = 0.0}) < 1.0, "distance-antimeridian",
          "180 east and 180 west are ",
          gps{.lon_ = 180.0, .lat_ = 0.0}.distance(gps{.lon_ = -180.0, .lat_ = 0.0}), " apart");
  // on the axes of the cartesian form
  for (auto const& [x, y, z, lon, lat] :
       {std::tuple{1.0, 0.0, 0.0, 0.0, 0.0}, std::tuple{0.0, 1.0, 0.0, 90.0, 0.0}, std::tuple{0.0, -1.0, 0.0, -90.0, 0.0},
        std::tuple{-1.0, 0.0, 0.0, 180.0, 0.0}, std::tuple{0.0, 0.6, 0.8, 90.0, 53.1301},
        std::tuple{0.0, -0.6, -0.8, -90.0, -53.1301}}) {
    auto const r = static_cast<double>(R);
    auto const g = soro::utls::cartesian{.x_ = x * r, .y_ = y * r, .z_ = z * r}.to_gps();
    c.check(std::abs(g.lon_ - lon) < 0.02 && std::abs(g.lat_ - lat) < 0.02, "cartesian-axis", x, ",", y, ",", z, " -> ",
            g.lat_, ",", g.lon_);
  }
  soro::utls::cartesian const origin{};
  c.check(origin.x_ == 0.0 && origin.y_ == 0.0 && origin.z_ == 0.0, "cartesian-default", "not the origin");
  gps half2{};
  half2.lat_ = 8.0;
  c.check(!half2.valid(), "half-invalid", "a position without longitude must be invalid");
}

CASES(U03) {  // bounding boxes
  auto const n = c.r.below(30);
  std::vector<gps> ps;
  for (std::size_t i = 0; i < n; ++i) {
    ps.push_back(random_gps(c));
    if (c.r.chance(30)) ps.back().lat_ = -std::abs(ps.back().lat_);
    c.sig(static_cast<std::uint64_t>(ps.back().lon_ * 1e6));
  }
  if (c.r.chance(30)) {
    for (auto& p : ps) {
      p.lat_ = -std::abs(p.lat_);
      p.lon_ = -std::abs(p.lon_);
    }
  }
  auto const bb = soro::utls::get_bounding_box(ps);
  std::list<gps> const l(ps.begin(), ps.end());
  auto const bl = soro::utls::get_bounding_box(l);
  if (ps.empty()) {
    c.check(!bb.south_west_.valid() && !bb.north_east_.valid(), "bbox-empty",
            "the box of nothing must be invalid");
    return;
  }
  c.nontrivial();
  bool w = false, e = false, s = false, no = false;
  for (auto const& p : ps) {
    c.check(p.lon_ >= bb.south_west_.lon_ && p.lon_ <= bb.north_east_.lon_ &&
                p.lat_ >= bb.south_west_.lat_ && p.lat_ <= bb.north_east_.lat_,
            "bbox-contains", "point ", p.lat_, ",", p.lon_, " outside");
    w |= p.lon_ == bb.south_west_.lon_;
    e |= p.lon_ == bb.north_east_.lon_;
    s |= p.lat_ == bb.south_west_.lat_;
    no |= p.lat_ == bb.north_east_.lat_;
  }
  c.check(w && e && s && no, "bbox-tight", "box of ", n, " points is too large");
  c.check(bl.south_west_.lon_ == bb.south_west_.lon_ && bl.north_east_.lat_ == bb.north_east_.lat_ &&
              bl.south_west_.lat_ == bb.south_west_.lat_ && bl.north_east_.lon_ == bb.north_east_.lon_,
          "bbox-range-kind", "list and vector differ");
  c.stat("boxes");
}

CASES(U03) {  // planar polar form
  for (int i = 0; i < 40; ++i) {
    double const x = c.r.chance(20) ? static_cast<double>(c.r.in(-1, 1)) : c.r.real(-1000, 1000);
    double const y = c.r.chance(20) ? static_cast<double>(c.r.in(-1, 1)) : c.r.real(-1000, 1000);
    if (x == 0 && y == 0) continue;
    c.sig(static_cast<std::uint64_t>((x + 2000) * 1e6));
    c.nontrivial();
    polar const p{x, y};
    c.check(std::abs(p.dist_ - std::hypot(x, y)) < 1e-9 * (1 + p.dist_), "polar-dist", x, ",", y, " -> ",
            p.dist_);
    c.check(p.bearing_ >= -1e-9 && p.bearing_ <= 360.02, "polar-range", p.bearing_);
    auto const w = static_cast<double>(std::atan2(static_cast<ld>(-y), static_cast<ld>(-x)) * 180 / TRUE_PI);
    c.check(angle_diff(p.bearing_, w) < 0.02, "polar-bearing", x, ",", y, " -> ", p.bearing_,
            " expected ", w);
    // straight along the axis the bearing is zero, not a full turn
    if (y == 0 && x < 0) c.eq(p.bearing_, 0.0, "polar-axis", x, ",", y);
    c.stat("polar_points");
  }
}

}  // namespace
