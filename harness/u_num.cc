// U02: integer narrowing and number parsing are exact or rejected
#include "common.h"

#include <array>
#include <charconv>
#include <cmath>
#include <limits>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <utility>

#include "soro/utls/narrow.h"
#include "soro/utls/parse_fp.h"
#include "soro/utls/parse_int.h"

namespace {

using namespace soro::utls;
using i128 = __int128;

template <typename In>
std::vector<In> interesting(vh::ctx& c) {
  std::vector<In> v;
  auto const add = [&](i128 x) {
    if (x >= static_cast<i128>(std::numeric_limits<In>::min()) &&
        x <= static_cast<i128>(std::numeric_limits<In>::max())) {
      v.push_back(static_cast<In>(x));
    }
  };
  for (int bits : {0, 7, 8, 15, 16, 31, 32, 63, 64}) {
    i128 const p = static_cast<i128>(1) << bits;
    for (int d = -2; d <= 2; ++d) {
      add(p + d);
      add(-p + d);
    }
  }
  add(0);
  for (int i = 0; i < 6; ++i) {
    auto const sh = c.r.below(64);
    add(static_cast<i128>(c.r.next() >> sh));
    add(-static_cast<i128>(c.r.next() >> sh));
  }
  return v;
}

template <typename Out, typename In>
void one_narrow(vh::ctx& c) {
  for (In const x : interesting<In>(c)) {
    auto const lo = static_cast<i128>(std::numeric_limits<Out>::min());
    auto const hi = static_cast<i128>(std::numeric_limits<Out>::max());
    bool const want = static_cast<i128>(x) >= lo && static_cast<i128>(x) <= hi;
    bool const got = detail::fits<Out>(In{x});
    c.check(got == want, "narrow-fits", "value ", static_cast<long double>(x), " of ",
            sizeof(In), " bytes signed=", std::is_signed_v<In>, " into ", sizeof(Out),
            " bytes signed=", std::is_signed_v<Out>, ": reported ", got);
    bool threw = false;
    try {
      auto const y = narrow<Out>(In{x});
      static_assert(std::is_same_v<std::remove_const_t<decltype(y)>, Out>);
      if (want) {
        c.check(static_cast<i128>(y) == static_cast<i128>(x), "narrow-value",
                "value changed: ", static_cast<long double>(x), " -> ",
                static_cast<long double>(y));
      }
    } catch (std::runtime_error const&) {
      threw = true;
    }
    c.check(!(threw && want), "narrow-rejects-representable", "value ",
            static_cast<long double>(x));
#if !defined(NDEBUG)
    c.check(threw == !want, "narrow-accepts-unrepresentable", "value ",
            static_cast<long double>(x));
    c.stat(threw ? "narrow_rejected" : "narrow_accepted");
#endif
  }
}

template <typename Out>
void narrow_from_all(vh::ctx& c) {
  one_narrow<Out, std::int8_t>(c);
  one_narrow<Out, std::uint8_t>(c);
  one_narrow<Out, std::int16_t>(c);
  one_narrow<Out, std::uint16_t>(c);
  one_narrow<Out, std::int32_t>(c);
  one_narrow<Out, std::uint32_t>(c);
  one_narrow<Out, std::int64_t>(c);
  one_narrow<Out, std::uint64_t>(c);
  one_narrow<Out, long>(c);
  one_narrow<Out, long long>(c);
  one_narrow<Out, unsigned long long>(c);
  one_narrow<Out, char>(c);
}

CASES(U02) {
  c.nontrivial();
  auto const which = c.r.below(8);
  c.sig(which);
  c.sig(c.r.s_);
  switch (which) {
    case 0: narrow_from_all<std::int8_t>(c); break;
    case 1: narrow_from_all<std::uint8_t>(c); break;
    case 2: narrow_from_all<std::int16_t>(c); break;
    case 3: narrow_from_all<std::uint16_t>(c); break;
    case 4: narrow_from_all<std::int32_t>(c); break;
    case 5: narrow_from_all<std::uint32_t>(c); break;
    case 6: narrow_from_all<std::int64_t>(c); break;
    default: narrow_from_all<std::uint64_t>(c); break;
  }
}

// an exactly sized buffer without terminator: over-reads are visible to ASan
struct exact {
  explicit exact(std::string const& s) : n_{s.size()}, p_{new char[s.size() + 0]} {
    std::memcpy(p_.get(), s.data(), n_);
  }
  std::string_view view() const { return {p_.get(), n_}; }
  char const* b() const { return p_.get(); }
  char const* e() const { return p_.get() + n_; }
  std::size_t n_;
  std::unique_ptr<char[]> p_;
};

// independent decimal reader: [-]digits, full match, in range
template <typename T>
std::pair<bool, T> model_int(std::string const& s) {
  std::size_t i = 0;
  bool neg = false;
  if (std::is_signed_v<T> && i < s.size() && s[i] == '-') {
    neg = true;
    ++i;
  }
  if (i == s.size()) return {false, T{}};
  i128 v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return {false, T{}};
    v = v * 10 + (s[i] - '0');
    if (v > (static_cast<i128>(1) << 80)) return {false, T{}};
  }
  if (neg) v = -v;
  if (v < static_cast<i128>(std::numeric_limits<T>::min()) ||
      v > static_cast<i128>(std::numeric_limits<T>::max())) {
    return {false, T{}};
  }
  return {true, static_cast<T>(v)};
}

std::string random_number_text(vh::ctx& c) {
  static char const* const odd[] = {"", "-", "+1", " 1", "1 ", "1.0", "0x10", "--1", "1-",
                                    "12a", "a12", "00012", "-0", "1e5", "\t3"};
  std::string s;
  switch (c.r.below(5)) {
    case 0: s = odd[c.r.below(std::size(odd))]; break;
    case 1: s = std::to_string(static_cast<std::int64_t>(c.r.next() >> c.r.below(64))); break;
    case 2: s = "-" + std::to_string(c.r.next() >> c.r.below(64)); break;
    case 3: {
      static char const* const edge[] = {
          "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535",
          "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
          "4294967296", "9223372036854775807", "9223372036854775808",
          "-9223372036854775808", "18446744073709551615", "18446744073709551616"};
      s = edge[c.r.below(std::size(edge))];
      break;
    }
    default:
      for (auto n = c.r.below(24); n > 0; --n) {
        s += "0123456789-+. ,x"[c.r.below(16)];
      }
  }
  return s;
}

template <typename T>
void one_parse(vh::ctx& c, std::string const& s) {
  auto const [ok, val] = model_int<T>(s);
  exact const e{s};
  auto const r = try_parse_int<T>(e.view());
  c.check(r.has_value() == ok, "try-parse-int-verdict", "'", s, "' into ", sizeof(T),
          " bytes signed=", std::is_signed_v<T>, ": accepted=", r.has_value());
  if (r.has_value() && ok) {
    c.check(*r == val, "try-parse-int-value", "'", s, "'");
  }
  if (!r.has_value()) {
    c.check(r.error() != std::error_code{}, "try-parse-int-error", "no error code for '", s, "'");
  }
  if (ok) {
    // all spellings agree on valid input
    c.check(parse_int<T>(e.view()) == val, "parse-int-value", "view '", s, "'");
    c.check(parse_int<T>(s) == val, "parse-int-value", "string '", s, "'");
    c.check(parse_int<T>(s.c_str()) == val, "parse-int-value", "c string '", s, "'");
    c.check(parse_int<T>(e.b(), e.e()) == val, "parse-int-value", "range '", s, "'");
    c.stat("ints_parsed");
  } else {
#if !defined(NDEBUG)
    auto const refuses = [&](auto&& f) {
      try {
        (void)f();
      } catch (std::runtime_error const&) {
        return true;
      }
      return false;
    };
    c.check(refuses([&] { return parse_int<T>(s); }), "parse-int-accepts-garbage", "string '", s, "'");
    c.check(refuses([&] { return parse_int<T>(e.view()); }), "parse-int-accepts-garbage", "view '", s, "'");
    c.check(refuses([&] { return parse_int<T>(e.b(), e.e()); }), "parse-int-accepts-garbage", "range '", s, "'");
    if (s.find('\0') == std::string::npos) {
      c.check(refuses([&] { return parse_int<T>(s.c_str()); }), "parse-int-accepts-garbage", "c string '", s, "'");
    }
#endif
    c.stat("ints_rejected");
  }
}

CASES(U02) {
  for (int i = 0; i < 20; ++i) {
    auto const s = random_number_text(c);
    c.sig(s);
    if (s.size() > 2) c.nontrivial();
    if (i == 0) c.note("parse '" + s + "'");
    one_parse<std::int8_t>(c, s);
    one_parse<std::uint8_t>(c, s);
    one_parse<std::int16_t>(c, s);
    one_parse<std::uint16_t>(c, s);
    one_parse<std::int32_t>(c, s);
    one_parse<std::uint32_t>(c, s);
    one_parse<std::int64_t>(c, s);
    one_parse<std::uint64_t>(c, s);
  }
}

CASES(U02) {  // floating point text, point or decimal comma
  for (int i = 0; i < 20; ++i) {
    auto const mant = c.r.in(-99999999, 99999999);
    auto const digits = static_cast<int>(c.r.in(0, 6));
    char buf[64];
    double const scale = std::pow(10.0, digits);
    std::snprintf(buf, sizeof buf, "%.*f", digits, static_cast<double>(mant) / scale);
    switch (c.r.below(8)) {
      case 0:  // few characters
        std::snprintf(buf, sizeof buf, "%d%s%d", static_cast<int>(c.r.below(12)), c.r.chance(80) ? "." : "",
                      static_cast<int>(c.r.below(10)));
        break;
      case 1:  // many characters
        std::snprintf(buf, sizeof buf, "%s%lld%05d.%lld%03d", c.r.chance(50) ? "-" : "",
                      static_cast<long long>(c.r.in(1, 999999999999999LL)), static_cast<int>(c.r.below(100000)),
                      static_cast<long long>(c.r.in(1, 999999999999999LL)), static_cast<int>(c.r.below(1000)));
        break;
      case 2:  // every bit of the number
        std::snprintf(buf, sizeof buf, "%.*g", c.r.chance(70) ? 17 : static_cast<int>(c.r.in(1, 16)),
                      std::ldexp(static_cast<double>(c.r.next()), static_cast<int>(c.r.in(-1000, 900))) *
                          (c.r.chance(50) ? -1 : 1));
        break;
      default: break;
    }
    std::string const dot = buf;
    double const want = std::strtod(buf, nullptr);
    std::string comma = dot;
    for (auto& ch : comma) {
      if (ch == '.') ch = ',';
    }
    c.sig(dot);
    c.nontrivial();
    exact const ed{dot}, ec{comma};
    c.eq(parse_fp<double>(ed.view()), want, "parse-fp-value", "view ", dot);
    c.eq(parse_fp<double>(dot), want, "parse-fp-value", "string ", dot);
    c.eq(parse_fp<double>(dot.c_str()), want, "parse-fp-value", "c string ", dot);
    c.eq(parse_fp<double>(ed.b(), ed.e()), want, "parse-fp-value", "range ", dot);
    c.eq((parse_fp<double, replace_comma::ON>(ec.view())), want, "parse-fp-comma", comma);
    c.eq((parse_fp<double, replace_comma::ON>(comma.c_str())), want, "parse-fp-comma", comma);
    c.eq((parse_fp<double, replace_comma::ON>(ec.b(), ec.e())), want, "parse-fp-comma", comma);
    c.eq((parse_fp<double, replace_comma::ON>(dot)), want, "parse-fp-comma", dot);
    // beyond the range of a float the number does not fit
    if (auto const f = std::strtof(buf, nullptr); std::isnormal(f) || want == 0.0) {
      c.eq(parse_fp<float>(dot), f, "parse-fp-float", dot);
    }
    c.check(comma == std::string(ec.view()), "parse-fp-mutates", "input was modified");
  }
}

CASES(U02) {  // text that is no number
  for (int i = 0; i < 10; ++i) {
    std::string t;
    for (auto n = c.r.in(1, 20); n > 0; --n) t += "0123456789-+. ,xeE\""[c.r.below(19)];
    exact const e{t};
    char* end = nullptr;
    std::strtod(t.c_str(), &end);
    bool const number = end == t.c_str() + t.size() && t[0] != '+' && t[0] != ' ' &&
                        t.find('x') == std::string::npos;
    if (number) continue;
    c.sig(t);
    c.nontrivial();
#if !defined(NDEBUG)
    auto const rejects = [&](auto&& f) {
      try {
        f();
      } catch (std::runtime_error const&) {
        return true;
      }
      return false;
    };
    c.check(rejects([&] { (void)parse_fp<double>(e.view()); }), "parse-fp-accepts-garbage", t);
    c.check(rejects([&] { (void)parse_fp<double>(e.b(), e.e()); }), "parse-fp-accepts-garbage", t);
    auto dotted = t;
    for (auto& ch : dotted) {
      if (ch == ',') ch = '.';
    }
    std::strtod(dotted.c_str(), &end);
    if (end != dotted.c_str() + dotted.size()) {
      c.check(rejects([&] { (void)parse_fp<double, replace_comma::ON>(e.view()); }),
              "parse-fp-accepts-garbage", t);
    }
    c.stat("floats_rejected");
#endif
  }
}

}  // namespace
