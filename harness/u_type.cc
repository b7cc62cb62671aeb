// U08: kinds of infrastructure elements and their counts
#include "common.h"

#include <numeric>

#include "soro/infrastructure/graph/type.h"
#include "soro/infrastructure/graph/type_set.h"
#include "soro/infrastructure/infra_stats.h"

namespace {

using namespace soro::infra;

struct row {
  char const* name_;
  type type_;
};

// the vocabulary of the infrastructure files, written down independently
row const names[] = {
    {"KmSprungAnfang", type::KM_JUMP},
    {"KmSprungEnde", type::KM_JUMP},
    {"Streckenwechsel0", type::LINE_SWITCH},
    {"Streckenwechsel1", type::LINE_SWITCH},
    {"Prellbock", type::BUMPER},
    {"Gleisende", type::TRACK_END},
    {"Betriebsstellengrenze", type::BORDER},
    {"VorsignalS", type::APPROACH_SIGNAL},
    {"VorsignalF", type::APPROACH_SIGNAL},
    {"HauptsignalS", type::MAIN_SIGNAL},
    {"HauptsignalF", type::MAIN_SIGNAL},
    {"SchutzsignalS", type::PROTECTION_SIGNAL},
    {"SchutzsignalF", type::PROTECTION_SIGNAL},
    {"SignalZugschlussstelleS", type::EOTD},
    {"SignalZugschlussstelleF", type::EOTD},
    {"FstrZugschlussstelleS", type::EOTD},
    {"FstrZugschlussstelleF", type::EOTD},
    {"GeschwZulaessigS", type::SPEED_LIMIT},
    {"GeschwZulaessigF", type::SPEED_LIMIT},
    {"GeschwEndeSpeziellS", type::SPEED_LIMIT},
    {"GeschwEndeSpeziellF", type::SPEED_LIMIT},
    {"PunktgeschwS", type::POINT_SPEED},
    {"PunktgeschwF", type::POINT_SPEED},
    {"ZwangshaltS", type::FORCED_HALT},
    {"ZwangshaltF", type::FORCED_HALT},
    {"FahrzeitmesspunktS", type::RUNTIME_CHECKPOINT},
    {"FahrzeitmesspunktF", type::RUNTIME_CHECKPOINT},
    {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT_UNDIRECTED},
    {"HalteplatzGzS", type::HALT},
    {"HalteplatzGzF", type::HALT},
    {"HalteplatzRzLinksS", type::HALT},
    {"HalteplatzRzLinksF", type::HALT},
    {"HalteplatzRzRechtsS", type::HALT},
    {"HalteplatzRzRechtsF", type::HALT},
    {"HalteplatzRzBeideS", type::HALT},
    {"HalteplatzRzBeideF", type::HALT},
    {"HalteplatzRzRechtsLinksS", type::HALT},
    {"HalteplatzRzRechtsLinksF", type::HALT},
    {"BremswegS", type::BRAKE_PATH},
    {"BremswegF", type::BRAKE_PATH},
    {"Neigung", type::SLOPE},
    {"Tunnel", type::TUNNEL},
    {"Gleisbezeichnung", type::TRACK_NAME},
    {"Bahnuebergang", type::LEVEL_CROSSING},
    {"Zugang", type::ENTRY},
    {"Weichenanfang", type::SIMPLE_SWITCH},
    {"Weichenstamm", type::SIMPLE_SWITCH},
    {"WeichenabzweigLinks", type::SIMPLE_SWITCH},
    {"WeichenabzweigRechts", type::SIMPLE_SWITCH},
    {"KreuzungAnfangLinks", type::CROSS},
    {"KreuzungAnfangRechts", type::CROSS},
    {"KreuzungEndeLinks", type::CROSS},
    {"KreuzungEndeRechts", type::CROSS},
    {"KreuzungsweicheAnfangLinks", type::CROSS},
    {"KreuzungsweicheAnfangRechts", type::CROSS},
    {"KreuzungsweicheEndeLinks", type::CROSS},
    {"KreuzungsweicheEndeRechts", type::CROSS},
    {"LZBAnfangS", type::LZB_START},
    {"LZBAnfangF", type::LZB_START},
    {"LZBEndeS", type::LZB_END},
    {"LZBEndeF", type::LZB_END},
    {"LZBBlockkennzeichenS", type::LZB_BLOCK_SIGN},
    {"LZBBlockkennzeichenF", type::LZB_BLOCK_SIGN},
    {"ETCSAnfangS", type::ETCS_START},
    {"ETCSAnfangF", type::ETCS_START},
    {"ETCSEndeS", type::ETCS_END},
    {"ETCSEndeF", type::ETCS_END},
    {"ETCSBlockkennzeichenS", type::ETCS_BLOCK_SIGN},
    {"ETCSBlockkennzeichenF", type::ETCS_BLOCK_SIGN},
    {"Bildpunkt", type::INVALID},
    {"Streckenklasse", type::INVALID},
};

enum group { END, SIMPLE, SWITCH, CROSSING, DIRECTED, UNDIRECTED };

// which kind every type is, plus its short name
struct info {
  type t_;
  group g_;
  char const* str_;
};

info const infos[] = {
    {type::BUMPER, END, "bumper"},
    {type::TRACK_END, END, "track_end"},
    {type::KM_JUMP, SIMPLE, "km_jump"},
    {type::BORDER, SIMPLE, "border"},
    {type::LINE_SWITCH, SIMPLE, "line_switch"},
    {type::SIMPLE_SWITCH, SWITCH, "simple_switch"},
    {type::CROSS, CROSSING, "cross"},
    {type::MAIN_SIGNAL, DIRECTED, "ms"},
    {type::PROTECTION_SIGNAL, DIRECTED, "ps"},
    {type::APPROACH_SIGNAL, DIRECTED, "as"},
    {type::RUNTIME_CHECKPOINT, DIRECTED, "rtcp"},
    {type::EOTD, DIRECTED, "eotd"},
    {type::SPEED_LIMIT, DIRECTED, "spl"},
    {type::POINT_SPEED, DIRECTED, "point_speed"},
    {type::BRAKE_PATH, DIRECTED, "brake_path"},
    {type::LZB_START, DIRECTED, "lzb_start"},
    {type::LZB_END, DIRECTED, "lzb_end"},
    {type::LZB_BLOCK_SIGN, DIRECTED, "lzb_block_sign"},
    {type::ETCS_START, DIRECTED, "etcs_start"},
    {type::ETCS_END, DIRECTED, "etcs_end"},
    {type::ETCS_BLOCK_SIGN, DIRECTED, "etcs_block_sign"},
    {type::FORCED_HALT, DIRECTED, "forced_halt"},
    {type::META, DIRECTED, "meta"},
    {type::HALT, DIRECTED, "hlt"},
    {type::TUNNEL, UNDIRECTED, "tunnel"},
    {type::ENTRY, UNDIRECTED, "entry"},
    {type::TRACK_NAME, UNDIRECTED, "track_name"},
    {type::RUNTIME_CHECKPOINT_UNDIRECTED, UNDIRECTED, "rtcp_u"},
    {type::LEVEL_CROSSING, UNDIRECTED, "level_crossing"},
    {type::SLOPE, UNDIRECTED, "slope"},
};

constexpr std::size_t n_infos = sizeof infos / sizeof infos[0];
constexpr std::size_t n_names = sizeof names / sizeof names[0];

bool tag_is(type t, type a) { return t == a; }

void predicates(vh::ctx& c, info const& i) {
  auto const t = i.t_;
  auto const n = static_cast<unsigned>(t);
  c.eq(is_end_element(t), i.g_ == END, "is-end", n);
  c.eq(is_simple_element(t), i.g_ == SIMPLE, "is-simple", n);
  c.eq(is_simple_switch(t), i.g_ == SWITCH, "is-switch", n);
  c.eq(is_cross(t), i.g_ == CROSSING, "is-cross", n);
  c.eq(is_directed_track_element(t), i.g_ == DIRECTED, "is-directed", n);
  c.eq(is_undirected_track_element(t), i.g_ == UNDIRECTED, "is-undirected", n);
  c.eq(is_track_element(t), i.g_ == DIRECTED || i.g_ == UNDIRECTED, "is-track", n);
  c.eq(is_section_element(t), i.g_ != DIRECTED && i.g_ != UNDIRECTED, "is-section", n);
  c.eq(is_border(t), tag_is(t, type::BORDER), "is-border", n);
  c.eq(is_halt(t), tag_is(t, type::HALT), "is-halt", n);
  c.eq(is_runtime_checkpoint(t),
       tag_is(t, type::RUNTIME_CHECKPOINT) || tag_is(t, type::RUNTIME_CHECKPOINT_UNDIRECTED),
       "is-rtcp", n);
  c.eq(is_lzb(t),
       tag_is(t, type::LZB_START) || tag_is(t, type::LZB_END) || tag_is(t, type::LZB_BLOCK_SIGN),
       "is-lzb", n);
  c.eq(is_etcs(t),
       tag_is(t, type::ETCS_START) || tag_is(t, type::ETCS_END) || tag_is(t, type::ETCS_BLOCK_SIGN),
       "is-etcs", n);
  c.eq(get_type_str(t), std::string{i.str_}, "short-name", n);
  c.check(id_to_type(type_to_id(t)) == t, "type-id-roundtrip", n);
}

// names of the vocabulary, and names near it
CASES(U08) {
  if (c.case_ == 0) {
    // all of it once
    for (auto const& r : names) {
      c.check(get_type(r.name_) == r.type_, "type-of-name", r.name_, " is ",
              unsigned(type_to_id(get_type(r.name_))));
      c.check(get_type(std::string{r.name_}) == r.type_, "type-of-name-string", r.name_);
    }
    for (auto const& i : infos) predicates(c, i);
    c.eq(n_infos, static_cast<std::size_t>(type_count), "type-count");
    std::set<std::string> short_names;
    for (auto const t : all_types()) short_names.insert(get_type_str(t));
    c.eq(short_names.size(), n_infos, "short-names-unique");
    c.check(short_names.count(get_type_str(type::INVALID)) == 0, "invalid-name-distinct");
    std::set<type_id> ids;
    for (auto const t : all_types()) ids.insert(type_to_id(t));
    c.eq(ids.size(), n_infos, "all-types-distinct");
    c.check(ids.count(type_to_id(type::INVALID)) == 0, "all-types-valid");
    c.nontrivial();
  }

  auto const& r = names[c.r.below(n_names)];
  std::string s = r.name_;
  c.check(get_type(s) == r.type_, "type-of-name", s);
  // in a buffer of exactly its size
  {
    auto* buf = new char[s.size() + 1];
    std::memcpy(buf, s.c_str(), s.size() + 1);
    c.check(get_type(static_cast<char const*>(buf)) == r.type_, "type-of-name-buffer", s);
    delete[] buf;
  }
  // mutated names are names of nothing
  auto m = s;
  switch (c.r.below(6)) {
    case 0: m += static_cast<char>(c.r.in(33, 126)); break;
    case 1: m.erase(c.r.below(m.size()), 1); break;
    case 2: m[c.r.below(m.size())] = static_cast<char>(c.r.in(33, 126)); break;
    case 3: m.insert(m.begin(), ' '); break;
    case 4: m = ""; break;
    default: {
      auto const n = c.r.below(30);
      m.clear();
      for (std::size_t i = 0; i < n; ++i) m += static_cast<char>(c.r.in(1, 255));
    }
  }
  type expected = type::INVALID;
  for (auto const& x : names) {
    if (m == x.name_) expected = x.type_;
  }
  c.sig(m);
  c.stat("names");
  c.check(get_type(m) == expected, "type-of-unknown-name", m);
}

// sets of types and counters per type
CASES(U08) {
  type_set const all{all_types()};
  std::size_t n = 0;
  for (auto const t : all) {
    c.check(type_to_id(t) == n, "all-set-order", n);
    ++n;
  }
  c.eq(n, n_infos, "all-set-size");
  c.check(!all.contains(type::INVALID), "all-set-invalid");

  auto const i = [&] { return infos[c.r.below(n_infos)].t_; };
  auto const a = i(), b = i(), d = i(), e = i();
  auto const k = c.r.below(4);
  type_set const s = k == 0 ? type_set{a} : k == 1 ? type_set{a, b} : k == 2 ? type_set{a, b, d} : type_set{a, b, d, e};
  std::vector<type> const seq = k == 0 ? std::vector{a} : k == 1 ? std::vector{a, b} : k == 2 ? std::vector{a, b, d} : std::vector{a, b, d, e};
  std::set<type> const model(seq.begin(), seq.end());
  for (auto const t : all_types()) {
    c.eq(s.contains(t), model.count(t) == 1, "set-contains", unsigned(type_to_id(t)));
    c.check(all.contains(t), "all-set-contains", unsigned(type_to_id(t)));
  }
  c.check(!s.contains(type::INVALID), "set-contains-invalid");
  std::set<type> seen;
  std::size_t len = 0;
  for (auto const t : s) {
    seen.insert(t);
    if (++len > 10) break;
  }
  c.check(seen == model, "set-iterates", k);
  c.check(len == seq.size() || len == model.size(), "set-iterates-length", len);

  infra_stats st;
  c.eq(st.total_elements(), std::size_t{0}, "stats-start");
  std::map<type, std::size_t> m;
  std::size_t total = 0;
  auto const steps = c.r.below(60);
  for (std::size_t j = 0; j < steps; ++j) {
    auto const t = i();
    auto const by = c.r.chance(10) ? c.r.below(1ull << 40) : c.r.below(4);
    st.number(t) += by;
    m[t] += by;
    total += by;
    c.sig(type_to_id(t));
  }
  auto const& cs = st;
  for (auto const t : all_types()) {
    c.eq(cs.number(t), m.count(t) ? m[t] : 0, "stats-number", unsigned(type_to_id(t)));
  }
  c.eq(cs.total_elements(), total, "stats-total");
  c.eq(cs.sections_, std::size_t{0}, "stats-sections");
  c.eq(cs.stations_, std::size_t{0}, "stats-stations");
  infra_stats const copy = st;
  st.number(type::HALT) += 1;
  c.eq(copy.total_elements(), total, "stats-copy");
  if (steps > 3) c.nontrivial();
}

}  // namespace
