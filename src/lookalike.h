// Keys that agree with another key in all but one part, the part taken from a
// second key for the same function. Each is evaluated like any other key; what
// it gives is not the share of any function but still a fixed value.
#ifndef VP_LOOKALIKE_H_
#define VP_LOOKALIKE_H_
#include <set>
#include <vector>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "vp.h"

namespace vp {
inline std::vector<dp::DpfKey> Lookalikes(const dp::DpfKey& k, const dp::DpfKey& d) {
  std::vector<dp::DpfKey> v;
  auto add = [&](auto change) {
    dp::DpfKey t = k;
    change(t);
    v.push_back(t);
  };
  add([&](auto& t) { t = d; *t.mutable_seed() = k.seed(); });
  add([&](auto& t) { t.mutable_seed()->set_high(d.seed().high()); });
  add([&](auto& t) { t.mutable_seed()->set_low(d.seed().low()); });
  add([&](auto& t) { t.set_party(1 - t.party()); });
  add([&](auto& t) { *t.mutable_last_level_value_correction() = d.last_level_value_correction(); });
  std::set<int> at;
  const int n = std::min(k.correction_words_size(), d.correction_words_size());
  for (int i : {0, n / 2, n - 1})
    if (i >= 0 && i < n) at.insert(i);
  for (int i = 0; i < n; ++i)  // the first level with values of its own
    if (k.correction_words(i).value_correction_size()) { at.insert(i); break; }
  for (int i : at) {
    add([&](auto& t) { *t.mutable_correction_words(i)->mutable_seed() = d.correction_words(i).seed(); });
    add([&](auto& t) { t.mutable_correction_words(i)->set_control_left(!t.correction_words(i).control_left()); });
    add([&](auto& t) { t.mutable_correction_words(i)->set_control_right(!t.correction_words(i).control_right()); });
    if (k.correction_words(i).value_correction_size())
      add([&](auto& t) { *t.mutable_correction_words(i)->mutable_value_correction() = d.correction_words(i).value_correction(); });
  }
  return v;
}
inline std::vector<dp::DcfKey> Lookalikes(const dp::DcfKey& k, const dp::DcfKey& d) {
  std::vector<dp::DcfKey> v;
  for (auto& x : Lookalikes(k.key(), d.key())) {
    v.push_back(k);
    *v.back().mutable_key() = x;
  }
  return v;
}
inline std::vector<dp::fss_gates::MicKey> Lookalikes(const dp::fss_gates::MicKey& k, const dp::fss_gates::MicKey& d) {
  std::vector<dp::fss_gates::MicKey> v;
  for (auto& x : Lookalikes(k.dcfkey(), d.dcfkey())) {
    v.push_back(k);
    *v.back().mutable_dcfkey() = x;
  }
  v.push_back(k);
  *v.back().mutable_output_mask_share() = d.output_mask_share();
  v.push_back(d);
  *v.back().mutable_output_mask_share() = k.output_mask_share();
  for (int i = 0; i < k.output_mask_share_size(); ++i) {
    v.push_back(k);
    *v.back().mutable_output_mask_share(i) = d.output_mask_share(i);
  }
  return v;
}
}  // namespace vp
#endif
