#pragma once
#include <cstdint>
#include <cstdio>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <sys/stat.h>
#include <vector>
#include <cstring>
// heap-backed, exactly sized copy of the file: any read past the end is
// visible to AddressSanitizer
namespace cista {
struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* path, protection const = protection::READ) {
    struct stat st {};
    if (stat(path, &st) != 0 || !S_ISREG(st.st_mode)) throw std::runtime_error{std::string{"mmap: cannot open "} + path};
    auto f = std::fopen(path, "rb");
    if (f == nullptr) throw std::runtime_error{std::string{"mmap: cannot open "} + path};
    size_ = static_cast<std::size_t>(st.st_size);
    data_.reset(new std::uint8_t[size_]);
    if (std::fread(data_.get(), 1, size_, f) != size_) { std::fclose(f); throw std::runtime_error{"mmap: short read"}; }
    std::fclose(f);
  }
  std::size_t size() const { return size_; }
  std::uint8_t* data() { return data_.get(); }
  std::uint8_t const* data() const { return data_.get(); }
  std::uint8_t* begin() { return data(); }
  std::uint8_t* end() { return data() + size_; }
  std::uint8_t const* begin() const { return data(); }
  std::uint8_t const* end() const { return data() + size_; }
  std::string_view view() const { return {reinterpret_cast<char const*>(data()), size_}; }
  std::size_t size_{0};
  std::unique_ptr<std::uint8_t[]> data_;
};
}  // namespace cista
