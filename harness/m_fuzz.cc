// I09: damaged files are refused or read, never more.
#include "tt.h"

#include "pugixml.hpp"

using namespace mdl;
namespace inf = soro::infra;

namespace {
std::vector<std::filesystem::path> files_of(std::filesystem::path const& dir) {
  std::vector<std::filesystem::path> v;
  for (auto const& e : std::filesystem::recursive_directory_iterator(dir)) {
    if (e.is_regular_file()) v.push_back(e.path());
  }
  std::sort(v.begin(), v.end());
  return v;
}

void nodes_of(pugi::xml_node const& x, std::vector<pugi::xml_node>& out) {
  for (auto const& y : x.children()) {
    out.push_back(y);
    nodes_of(y, out);
  }
}

std::string odd_text(rng& r, std::string const& old) {
  switch (r.below(14)) {
    case 0: return "";
    case 1: return "x";
    case 2: return "-1";
    case 3: return "0";
    case 4: return "99999999999999999999999";
    case 5: return "4294967295";
    case 6: return std::to_string(r.below(60));
    case 7: return old + old;
    case 8: return old.substr(0, r.below(old.size() + 1));
    case 9: return old + "0";
    case 10: return "1,5";
    case 11: return " " + old + " ";
    case 12: return "\xc3\xa4\xf6";
    default: {
      auto s = old;
      if (!s.empty()) s[r.below(s.size())] = static_cast<char>(r.in(33, 126));
      return s;
    }
  }
}

// one change to an XML file
std::string damage(rng& r, std::filesystem::path const& f) {
  std::ifstream in(f, std::ios::binary);
  std::string text((std::istreambuf_iterator<char>(in)), {});
  in.close();
  if (f.extension() != ".xml" || r.chance(4)) {
    if (r.chance(40)) {
      text.resize(r.below(text.size() + 1));
    } else if (!text.empty()) {
      auto const at = r.below(text.size());
      if (r.chance(50)) {
        text[at] = static_cast<char>(r.in(0, 255));
      } else {
        text.erase(at, 1 + r.below(12));
      }
    }
    network::write(f, text);
    return f.filename().string() + " cut";
  }
  pugi::xml_document doc;
  if (!doc.load_buffer(text.data(), text.size())) return "unreadable";
  std::vector<pugi::xml_node> all, elements, texts;
  nodes_of(doc, all);
  for (auto const& x : all) {
    if (x.type() == pugi::node_element) elements.push_back(x);
    if (x.type() == pugi::node_pcdata) texts.push_back(x);
  }
  if (elements.empty()) return "empty";
  std::string what;
  auto x = r.pick(elements);
  switch (r.below(6)) {
    case 0: {
      what = "without " + std::string{x.name()};
      x.parent().remove_child(x);
      break;
    }
    case 1: {
      what = "twice " + std::string{x.name()};
      x.parent().insert_copy_after(x, x);
      break;
    }
    case 2:
    case 3: {
      std::vector<pugi::xml_attribute> attrs;
      for (auto const& y : elements) {
        for (auto const& a : y.attributes()) attrs.push_back(a);
      }
      if (attrs.empty()) return "nothing";
      auto a = r.pick(attrs);
      what = "attribute " + std::string{a.name()} + "=" + a.value();
      auto const t = odd_text(r, a.value());
      what += " -> " + t;
      a.set_value(t.c_str());
      break;
    }
    case 4: {
      if (texts.empty()) return "nothing";
      auto y = r.pick(texts);
      auto const t = odd_text(r, y.value());
      what = std::string{y.parent().name()} + "=" + y.value() + " -> " + t;
      y.set_value(t.c_str());
      break;
    }
    default: {
      auto const y = r.pick(elements);
      what = std::string{x.name()} + " for " + y.name();
      if (r.chance(50)) {
        x.set_name(y.name());
      } else {
        auto p = y.parent();
        if (x != y && p) p.insert_copy_before(x, y);
      }
    }
  }
  doc.save_file(f.c_str(), "", pugi::format_raw);
  return f.filename().string() + ": " + what;
}

std::string content(std::filesystem::path const& f) {
  std::ifstream in(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), {});
}

// references of what was read lead somewhere
void use(vh::ctx& c, inf::infrastructure_t const& i, std::string const& what) {
  auto const count = i.graph_.nodes_.size();
  std::set<node::ptr> all(i.graph_.nodes_.begin(), i.graph_.nodes_.end());
  for (auto const& n : i.graph_.nodes_) {
    c.check(n->next_node_ == nullptr || all.count(n->next_node_) > 0, "node-next", what);
    c.check(n->branch_node_ == nullptr || all.count(n->branch_node_) > 0, "node-branch", what);
  }
  c.eq(all.size(), count, "nodes", what);
  c.eq(i.element_to_station_.size(), i.graph_.elements_.size(), "element-station", what);
  for (auto const& sr : i.station_routes_) {
    std::size_t k = 0;
    for (auto const& n : sr->nodes()) {
      c.check(all.count(n) > 0, "route-node", what);
      if (k++ > 0) c.check(sr->nodes(k - 2)->next_node_ == n || sr->nodes(k - 2)->branch_node_ == n, "route-way", what);
    }
  }
  for (auto const& q : i.interlocking_.routes_) {
    c.check(!q.station_routes_.empty(), "interlocking-route", what);
    for (auto const s : q.station_routes_) c.check(s < i.station_routes_.size(), "interlocking-route", what);
    if (q.station_routes_.empty()) continue;
    c.check(q.start_offset_ < i.station_routes_[q.station_routes_.front()]->size(), "interlocking-route", what);
    c.check(q.end_offset_ <= i.station_routes_[q.station_routes_.back()]->size(), "interlocking-route", what);
  }
}

void use(vh::ctx& c, tt_world const& w, soro::tt::train const& x, std::string const& what) {
  c.stat("trains");
  auto const& i = w.i();
  for (auto const p : x.path_) c.check(p < i.interlocking_.routes_.size(), "train-path", what);
  for (auto const& p : x.sequence_points_) c.check(p.station_route_ < i.station_routes_.size(), "train-point", what);
  c.check(!x.path_.empty() && !x.sequence_points_.empty(), "train-path", what);
  std::size_t nodes = 0;
  for (auto const& n : x.iterate(*w.infra)) nodes += n.node_ != nullptr;
  c.check(nodes > 0, "train-way", what);
}

struct fuzz_world : tt_world {
  void tune(vh::ctx& c, options& o) override {
    tt_world::tune(c, o);
    o.wide = false;
    o.stations = static_cast<int>(c.r.in(1, 4));
    o.mids = static_cast<int>(c.r.in(2, 8));
    o.max_routes = static_cast<unsigned>(c.r.in(2, 8));
  }
};
}  // namespace

CASES(I09) {
  auto& r = c.r;
  bool const timetable = r.chance(50);
  std::unique_ptr<fuzz_world> made;
  for (int attempt = 0; attempt < (timetable ? 8 : 1); ++attempt) {
    made = std::make_unique<fuzz_world>();
    if (!made->prepare(c)) return;
    if (!timetable) break;
    if (!made->map(c) || made->i().interlocking_.routes_.size() != made->lv->all.size()) continue;
    made->random_timetable(c, true, 6);
    if (!made->specs.empty()) break;
  }
  auto& w = *made;
  if (timetable && w.specs.empty()) return;
  if (!timetable) w.infra.reset();
  c.nontrivial();
  auto const files = files_of(timetable ? w.tt_dir : w.dir);
  std::map<std::filesystem::path, std::string> good;
  for (auto const& f : files) good[f] = content(f);
  for (int round = 0; round < 8; ++round) {
    auto const times = r.chance(80) ? 1 : 1 + r.below(4);
    std::string what;
    for (std::uint64_t k = 0; k < times; ++k) what += damage(r, r.pick(files)) + "; ";
    c.sig(std::hash<std::string>{}(what));
    if (c.case_ < 50 && round == 0) c.note(what);
    if (std::getenv("SHOW") != nullptr) std::cerr << "case " << c.case_ << " " << what << std::endl;
    try {
      if (timetable) {
        soro::tt::timetable_options o;
        o.timetable_path_ = w.tt_dir;
        soro::tt::timetable const t{o, *w.infra};
        c.stat("timetables_read");
        for (auto const& x : t->trains_) use(c, w, x, what);
      } else {
        w.opts.layout_ = r.chance(20);
        w.load();
        c.stat("infrastructures_read");
        use(c, w.i(), what);
        w.infra.reset();
      }
    } catch (std::exception const&) {
      c.stat(timetable ? "timetables_refused" : "infrastructures_refused");
    }
    for (auto const& [f, text] : good) network::write(f, text);
  }
}
