// Selects, one after the other, every SIMD instruction set the code under test
// was compiled for and this CPU can run.
#ifndef VP_HWY_TARGETS_H_
#define VP_HWY_TARGETS_H_
#include <hwy/highway.h>
#include <hwy/targets.h>
#include <hwy/tests/test_util.h>

#include <string>
#include <vector>

#include "vp.h"

namespace vp {
struct HwyTarget {
  int64_t bit;
  std::string name;
};
inline std::vector<HwyTarget> HwyTargets() {
  std::vector<HwyTarget> r;
  hwy::SetSupportedTargetsForTest(0);
  int64_t all = hwy::SupportedTargets() & HWY_TARGETS;
  for (int i = 0; i < 63; ++i)
    if (all >> i & 1) r.push_back({int64_t{1} << i, hwy::TargetName(int64_t{1} << i)});
  return r;
}
inline void UseTarget(const HwyTarget& t) {
  hwy::SetSupportedTargetsForTest(t.bit);
  hwy::GetChosenTarget().Update(hwy::SupportedTargets());
}
}  // namespace vp
#endif
