#pragma once
#include <memory>
namespace cista { namespace offset { using std::unique_ptr; using std::make_unique; } namespace raw { using std::unique_ptr; using std::make_unique; } }
