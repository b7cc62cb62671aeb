#pragma once
#include <optional>
namespace cista { using std::optional; namespace offset { using std::optional; } namespace raw { using std::optional; } }
