// U11: file contents survive a round trip
#include "common.h"

#include <filesystem>
#include <fstream>

#include "soro/base/soro_types.h"
#include "soro/utls/file/binary_buffer_to_file.h"
#include "soro/utls/file/file_to_binary_buffer.h"
#include "soro/utls/file/loaded_file.h"

namespace {

namespace u = soro::utls;
namespace fs = std::filesystem;

std::vector<unsigned char> some_bytes(vh::ctx& c) {
  std::size_t n = 0;
  switch (c.r.below(7)) {
    case 0: n = c.r.below(3); break;
    case 1: n = c.r.below(100); break;
    case 2: n = 4094 + c.r.below(5); break;
    case 3: n = 8190 + c.r.below(5); break;
    case 4: n = 65534 + c.r.below(5); break;
    case 5: n = c.r.below(5000); break;
    default: n = c.r.below(c.thorough_ ? 3000000 : 200000);
  }
  if (c.r.chance(2)) n = (1u << 20) + c.r.below(1u << 21);
  std::vector<unsigned char> v(n);
  auto const mode = c.r.below(5);
  static unsigned char const special[] = {0, '\n', '\r', 0x1a, 0xff, ' ', '\t', 0x80};
  for (auto& b : v) {
    b = mode == 0   ? 0
        : mode == 1 ? special[c.r.below(8)]
        : mode == 2 ? '\n'
        : mode == 3 ? 0xff
                    : static_cast<unsigned char>(c.r.below(256));
  }
  return v;
}

std::vector<unsigned char> raw(fs::path const& p) {
  std::vector<unsigned char> v;
  auto* f = std::fopen(p.c_str(), "rb");
  if (f == nullptr) return v;
  unsigned char buf[65536];
  std::size_t n;
  while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) v.insert(v.end(), buf, buf + n);
  std::fclose(f);
  return v;
}

CASES(U11) {
  static char const* const files[] = {"plain", "with space.bin", "uml\xc3\xa4ut", "x.gz", "sub/inner.dat"};
  fs::create_directories(fs::path(vh::scratch_dir) / "sub");
  auto const p = fs::path(vh::scratch_dir) / files[c.r.below(5)];
  auto const steps = 1 + c.r.below(4);
  std::vector<unsigned char> content;
  // several writes to one file: each replaces the content as a whole
  for (std::size_t i = 0; i < steps; ++i) {
    content = some_bytes(c);
    auto const copy = content;
    u::write_binary_buffer_to_file(p, content);
    c.check(content == copy, "write-keeps-buffer");
    c.check(raw(p) == content, "file-content", "wrote ", content.size(), " bytes, file has ", raw(p).size());
    c.check(u::read_file_to_binary_buffer(p) == content, "read-back", content.size());
    c.check(u::read_file_to_binary_buffer(p) == content, "read-back-twice", content.size());
    auto const s = u::read_file_to_string(p);
    c.check(s.size() == content.size() && std::equal(s.begin(), s.end(), content.begin(),
                                                      [](char a, unsigned char b) { return static_cast<unsigned char>(a) == b; }),
            "read-string", content.size(), " got ", s.size());
    if (!content.empty()) {
      auto const l = u::load_file(p);
      c.eq(l.size(), content.size(), "load-size");
      c.check(std::equal(l.begin(), l.end(), content.begin(), content.end()), "load-content");
      c.check(reinterpret_cast<void const*>(l.data()) == reinterpret_cast<void const*>(l.begin()), "load-data");
      c.check(l.path_ == p, "load-path");
    }
    c.sig(content.size());
  }
  // files other programs wrote
  content = some_bytes(c);
  auto const q = fs::path(vh::scratch_dir) / "other";
  {
    auto* f = std::fopen(q.c_str(), "wb");
    if (!content.empty()) std::fwrite(content.data(), 1, content.size(), f);
    std::fclose(f);
  }
  c.check(u::read_file_to_binary_buffer(q) == content, "read-foreign", content.size());
  c.check(u::read_file_to_string(q).size() == content.size(), "read-foreign-string", content.size());
  // a missing file has no content
  auto const missing = fs::path(vh::scratch_dir) / "missing";
  c.check(u::read_file_to_binary_buffer(missing).empty(), "missing-empty");
  c.check(u::read_file_to_string(missing).empty(), "missing-empty-string");
  c.check(!fs::exists(missing), "missing-not-created");
  fs::remove(p);
  fs::remove(q);
  c.stat("bytes", content.size());
  if (content.size() > 10) c.nontrivial();
}

}  // namespace
