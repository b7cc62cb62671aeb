// I13: the tool that writes the exclusion graph, run in this process.
#define main vh_tool_main
#include "tools/export_exclusion_graph/src/export_exclusion_graph.cc"
#undef main

#include "lockw.h"

#include <fstream>

namespace {
struct silence {
  std::streambuf* was{std::cout.rdbuf()};
  std::ostringstream to;
  silence() { std::cout.rdbuf(to.rdbuf()); }
  ~silence() { std::cout.rdbuf(was); }
};

int run_tool(std::vector<std::string> const& args) {
  std::vector<char const*> v{"soro-export-exclusion-graph"};
  for (auto const& a : args) v.push_back(a.c_str());
  silence const quiet;
  return vh_tool_main(static_cast<int>(v.size()), v.data());
}
}  // namespace

CASES(I13) {
  mdl::lock_world w;
  if (!w.prepare(c)) return;
  // what it writes is what is loaded with everything asked for
  auto opts = w.opts;
  opts.layout_ = false;
  opts.interlocking_ = true;
  opts.exclusions_ = true;
  opts.exclusion_elements_ = true;
  opts.exclusion_graph_ = true;
  soro::infra::infrastructure const infra(opts);
  auto const& g = infra->exclusion_.exclusion_graph_.nodes_;
  auto const count = infra->interlocking_.routes_.size();
  if (!c.eq(g.size(), count, "tool-graph", "nodes")) return;

  std::filesystem::path const out = std::filesystem::path(vh::scratch_dir) / "graph.txt";
  std::filesystem::remove(out);
  if (c.r.chance(30)) std::ofstream(out) << std::string(static_cast<std::size_t>(c.r.in(1, 100000)), '7') << "\n";
  bool const again = std::filesystem::exists(out);
  auto const dir = w.dir.string();
  if (c.r.chance(10)) {
    // unusable arguments
    std::vector<std::vector<std::string>> const bad{
        {}, {"--infra_path", dir}, {"--output_path", out.string()}, {"--infra_path"},
        {"--infra_path", dir + "/nothing", "--output_path", out.string()},
        {"--infra_path", dir, "--output_path", out.string(), "--more", "x"}};
    std::filesystem::remove(out);
    auto const& b = c.r.pick(bad);
    c.check(run_tool(b) != 0, "tool-refuses", b.size(), " arguments");
    c.check(!std::filesystem::exists(out), "tool-refused-with-output", b.size(), " arguments");
    c.stat("refused");
  }
  std::vector<std::string> args{"--infra_path", dir, "--output_path", out.string()};
  if (c.r.chance(50)) std::rotate(args.begin(), args.begin() + 2, args.end());
  if (!c.eq(run_tool(args), 0, "tool-result")) return;

  std::ifstream f(out);
  std::string line;
  std::size_t k = 0, pairs = 0;
  while (std::getline(f, line)) {
    std::vector<unsigned> got;
    std::istringstream i(line);
    for (std::string t; i >> t;) {
      if (!c.check(t.find_first_not_of("0123456789") == std::string::npos && t.size() < 10, "tool-line", k, ": ", t)) return;
      got.push_back(static_cast<unsigned>(std::stoul(t)));
    }
    std::vector<unsigned> want;
    for (unsigned o = 0; k < count && o < k; ++o) {
      if (g[k][o]) want.push_back(o);
    }
    if (!c.check(got == want, "tool-line", "line ", k, " of ", count, " has ", got.size(), " routes, expected ", want.size())) return;
    pairs += want.size();
    ++k;
  }
  c.eq(k, count, "tool-lines");
  c.sig(count * 100003 + pairs);
  if (pairs > 0) c.nontrivial();
  c.stat("pairs", pairs);
  c.stat("routes", count);
  if (again) c.stat("overwritten");
}
