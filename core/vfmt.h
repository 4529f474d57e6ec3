#pragma once
#include <cstdint>

namespace vfmt {
// What the stand-in file format can be told to vary.
struct Knobs {
    int64_t row_group = 64;
    bool prefetch = true;
};
Knobs& GetKnobs();
}  // namespace vfmt
