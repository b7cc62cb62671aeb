#pragma once
// only named by the sources, never made: they are built upon the standard containers
namespace cista {
namespace offset {
template <typename T> struct vector { T* begin() const { return nullptr; } T* end() const { return nullptr; } unsigned size() const { return 0; } };
}
namespace raw {
template <typename T> struct vector { T* begin() const { return nullptr; } T* end() const { return nullptr; } unsigned size() const { return 0; } };
}
}
