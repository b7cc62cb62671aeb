#include "common.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <exception>

namespace vh {

std::string scratch_dir;

static std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  rng r{a * 0x9E3779B97F4A7C15ull + b};
  r.next();
  return r.next();
}

int run_main(int argc, char** argv) {
  std::string prop, progress, sigs;
  std::uint64_t seed = 1, from = 0, to = 1;
  bool thorough = false;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const val = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--to") to = std::stoull(val());
    else if (a == "--progress") progress = val();
    else if (a == "--sigs") sigs = val();
    else if (a == "--scratch") scratch_dir = val();
    else if (a == "--thorough") thorough = true;
    else {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 64;
    }
  }
  auto const it = registry::get().fns_.find(prop);
  if (it == registry::get().fns_.end()) {
    std::fprintf(stderr, "no cases for %s\n", prop.c_str());
    return 64;
  }
  volatile std::uint64_t* prog = nullptr;
  if (!progress.empty()) {
    int const fd = ::open(progress.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ::ftruncate(fd, 16) != 0) return 64;
    prog = static_cast<std::uint64_t*>(
        ::mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  std::FILE* sf = sigs.empty() ? nullptr : std::fopen(sigs.c_str(), "ab");
  std::uint64_t checks = 0, ran = 0, samples = 0;
  std::map<std::string, std::uint64_t> stats;
  std::uint64_t ph = 0;
  for (char ch : prop) ph = ph * 131 + static_cast<unsigned char>(ch);
  auto const& fns = it->second;
  auto const flush = [&] {
    std::printf("COUNT|%llu|%llu\n", static_cast<unsigned long long>(ran),
                static_cast<unsigned long long>(checks));
    for (auto const& [k, v] : stats) {
      std::printf("STAT|%s|%llu\n", k.c_str(), static_cast<unsigned long long>(v));
    }
    std::fflush(stdout);
    ran = checks = 0;
    stats.clear();
  };
  for (auto i = from; i < to; ++i) {
    if (prog != nullptr) {
      prog[0] = i;
      prog[1] = prog[1] + 1;
    }
    ctx c{mix(mix(seed, ph), i), i, thorough};
    auto const sub = i % fns.size();
    c.sig(sub);
    try {
      fns[sub](c);
    } catch (std::exception const& e) {
      c.fail("unexpected-exception", std::string("uncaught: ") + e.what());
    } catch (...) {
      c.fail("unexpected-exception", "uncaught non-standard exception");
    }
    ++ran;
    checks += c.checks_;
    for (auto const& [k, v] : c.stats_) stats[k] += v;
    if (sf != nullptr && c.nontrivial_) {
      std::fwrite(&c.sig_, sizeof c.sig_, 1, sf);
      std::fflush(sf);
    }
    if (samples < 12 && !c.sample_.empty()) {
      std::string s = c.sample_;
      for (auto& ch : s) {
        if (ch == '\n' || ch == '\r') ch = ' ';
      }
      std::printf("SAMPLE|%llu|%s\n", static_cast<unsigned long long>(i), s.c_str());
      ++samples;
    }
    if ((i - from) % 64 == 63) flush();
  }
  flush();
  std::printf("DONE\n");
  std::fflush(stdout);
  if (sf != nullptr) std::fclose(sf);
  return 0;
}

}  // namespace vh

int main(int argc, char** argv) { return vh::run_main(argc, argv); }
