#pragma once
#include "cista/reflection/shim_members.h"
#define CISTA_COMPARABLE()                                                              \
  template <typename ShimT> bool operator==(ShimT const& o) const { return ::cista::cista_shim_eq(*this, o); } \
  template <typename ShimT> bool operator!=(ShimT const& o) const { return !(*this == o); } \
  template <typename ShimT> bool operator<(ShimT const& o) const { return ::cista::cista_shim_lt(*this, o); }  \
  template <typename ShimT> bool operator>(ShimT const& o) const { return ::cista::cista_shim_lt(o, *this); }  \
  template <typename ShimT> bool operator<=(ShimT const& o) const { return !(*this > o); } \
  template <typename ShimT> bool operator>=(ShimT const& o) const { return !(*this < o); }
