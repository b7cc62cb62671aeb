// U15: a data set that is moved is the same data set, in its new place
#include "common.h"

#include <list>
#include <memory>

#include "soro/utls/execute_if.h"
#include "soro/utls/serializable.h"

namespace {

namespace u = soro::utls;
namespace fs = std::filesystem;

struct content {
  std::string name_;
  std::vector<std::string> items_;
  std::unique_ptr<int> own_;
  static inline long live = 0;
  content() { ++live; }
  content(content&& o) noexcept : name_{std::move(o.name_)}, items_{std::move(o.items_)}, own_{std::move(o.own_)} { ++live; }
  content& operator=(content&&) noexcept = default;
  ~content() { --live; }
};

// a data set is loaded into its own memory, as infrastructures and timetables are
struct data_set : u::serializable<content> {
  using u::serializable<content>::serializable;
  data_set() = default;
  explicit data_set(content&& c) {
    mem_ = std::move(c);
    access_ = std::addressof(mem_.template as<content>());
  }
  bool inside() const {
    auto const* p = reinterpret_cast<unsigned char const*>(access_);
    auto const* b = reinterpret_cast<unsigned char const*>(this);
    return p >= b && p + sizeof(content) <= b + sizeof(*this);
  }
};

struct expected {
  std::string name_;
  std::vector<std::string> items_;
  int own_{0};
};

content make(expected const& e) {
  content c;
  c.name_ = e.name_;
  c.items_ = e.items_;
  c.own_ = std::make_unique<int>(e.own_);
  return c;
}

void same(vh::ctx& c, data_set const& d, expected const& e, char const* what) {
  c.check(d.inside(), "moved-in-place", what);
  c.check(&*d == d.operator->(), "moved-one-object", what);
  c.eq(d->name_, e.name_, "moved-content", what);
  c.eq((*d).items_, e.items_, "moved-content", what);
  c.check(d->own_ != nullptr && *d->own_ == e.own_, "moved-content", what);
}

expected some(vh::ctx& c) {
  expected e;
  e.name_ = std::string(c.r.below(60), static_cast<char>('a' + c.r.below(26)));
  for (auto n = c.r.below(6); n > 0; --n) e.items_.push_back(std::string(c.r.below(40), static_cast<char>('a' + c.r.below(26))));
  e.own_ = static_cast<int>(c.r.in(-100000, 100000));
  return e;
}

CASES(U15) {
  auto const live = content::live;
  {
    auto const n = 1 + c.r.below(6);
    std::vector<expected> want;
    std::vector<data_set> at;  // grows: everything moves
    for (std::size_t i = 0; i < n; ++i) {
      want.push_back(some(c));
      at.push_back(data_set{make(want.back())});
    }
    for (std::size_t i = 0; i < n; ++i) same(c, at[i], want[i], "grown vector");
    auto const ops = c.r.below(c.thorough_ ? 60 : 25);
    for (std::size_t k = 0; k < ops; ++k) {
      auto const i = c.r.below(n), j = c.r.below(n);
      switch (c.r.below(6)) {
        case 0: {  // out and back again
          auto const tmp = std::make_unique<data_set>(std::move(at[i]));
          same(c, *tmp, want[i], "moved to the heap");
          at[i] = std::move(*tmp);
          break;
        }
        case 1:
          if (i != j) {
            std::swap(at[i], at[j]);
            std::swap(want[i], want[j]);
          }
          break;
        case 2: {  // replaced
          auto const e = some(c);
          at[i] = data_set{make(e)};
          want[i] = e;
          break;
        }
        case 3: {  // the source dies before the target is used
          data_set target;
          {
            data_set source{std::move(at[i])};
            target = std::move(source);
          }
          same(c, target, want[i], "source gone");
          at[i] = std::move(target);
          break;
        }
        case 4: {
          auto const old = at.capacity();
          at.reserve(old + 1 + c.r.below(4));
          break;
        }
        default: {
          std::vector<data_set> other;
          for (auto& a : at) other.push_back(std::move(a));
          at = std::move(other);
        }
      }
      for (std::size_t m = 0; m < n; ++m) same(c, at[m], want[m], "after a move");
    }
    c.stat("moves", ops);
    if (ops > 3) c.nontrivial();
    c.check(!std::is_copy_constructible_v<data_set> && !std::is_copy_assignable_v<data_set>, "data-set-copyable");
  }
  c.eq(content::live, live, "moved-leak");
  data_set const fresh;
  c.check(fresh.inside() && fresh->name_.empty() && fresh->items_.empty() && fresh->own_ == nullptr, "fresh-data-set");

#if !defined(SERIALIZE)
  // without serialization there is no file, and saying so is the only effect
  c.check(!data_set::serialization_possible(), "serialization-possible");
  auto const p = fs::path(vh::scratch_dir) / "saved.bin";
  bool thrown = false;
  try {
    fresh.save(p);
  } catch (std::exception const&) {
    thrown = true;
  }
  c.check(thrown && !fs::exists(p), "save-without-serialization");
#endif
  c.sig(c.r.s_);
}

// a function for one kind runs on that kind only
CASES(U15) {
  struct a { int x_; };
  struct b { int x_; };
  using var = cista::variant<a, b>;
  auto const x = static_cast<int>(c.r.in(-1000, 1000));
  var v = c.r.chance(50) ? var{a{x}} : var{b{x}};
  bool const is_a = holds_alternative<a>(v);
  int seen_a = 0, seen_b = 0;
  u::execute_if<a>(v, [&](a& y) { ++seen_a; c.eq(y.x_, x, "execute-if-value"); y.x_ += 1; });
  u::execute_if<b>(v, [&](b& y) { ++seen_b; c.eq(y.x_, x, "execute-if-value"); y.x_ += 1; });
  c.check(seen_a == (is_a ? 1 : 0) && seen_b == (is_a ? 0 : 1), "execute-if-kind", is_a);
  var const cv = v;
  u::execute_if<a>(cv, [&](a const& y) { c.eq(y.x_, x + 1, "execute-if-changed"); });
  u::execute_if<b>(cv, [&](b const& y) { c.eq(y.x_, x + 1, "execute-if-changed"); });
  c.sig(static_cast<std::uint64_t>(x + 5000) * 2 + is_a);
  c.stat("variants");
}

}  // namespace
