// Hierarchies (lists of log domain sizes and value types) shared by the
// incremental-DPF harnesses.
#ifndef VP_HIER_H_
#define VP_HIER_H_
#include "types.h"
#include "vp_rand.h"

namespace vp {
struct Hier {
  std::vector<int> d;                 // log domain sizes
  std::vector<const TypeOps*> t;      // value types
  std::string name;
  int last() const { return d.back(); }
  int size() const { return static_cast<int>(d.size()); }
};
inline std::string HierName(const Hier& h) {
  std::string s;
  for (int i = 0; i < h.size(); ++i) s += F("%s%d%s", i ? "-" : "", h.d[i], h.t[i]->name.c_str());
  return s;
}
inline absl::StatusOr<std::unique_ptr<Dpf>> MakeDpf(const Hier& h) {
  std::vector<DpfParameters> ps;
  for (int i = 0; i < h.size(); ++i) ps.push_back(Param(h.d[i], *h.t[i]));
  auto dpf = Dpf::CreateIncremental(ps);
  if (!dpf.ok()) return dpf;
  for (auto* t : h.t) {
    auto s = t->reg(**dpf);
    if (!s.ok()) return s;
  }
  return dpf;
}
inline std::vector<Flat> HierBetas(const Hier& h, int variant = 0) {
  std::vector<Flat> b;
  for (int i = 0; i < h.size(); ++i) {
    auto all = Betas(*h.t[i], 6);
    b.push_back(variant == 0 ? all[i % 2 ? 4 : 0] : variant == 1 ? all[1] : all[(i + variant) % all.size()]);
  }
  return b;
}
inline absl::StatusOr<std::pair<DpfKey, DpfKey>> HierKeys(const Hier& h, Dpf& dpf, u128 alpha,
                                                          const std::vector<Flat>& betas) {
  std::vector<dp::Value> v;
  for (int i = 0; i < h.size(); ++i) v.push_back(h.t[i]->encode(betas[i]));
  return dpf.GenerateKeysIncremental(alpha, absl::MakeConstSpan(v));
}
inline u128 Shr(u128 x, int s) { return s >= 128 ? u128{0} : x >> s; }
inline u128 Shl(u128 x, int s) { return s >= 128 ? u128{0} : x << s; }
// All strictly increasing sequences over [lo, hi] with length in [minlen, maxlen].
inline std::vector<std::vector<int>> IncreasingSeqs(int lo, int hi, int minlen, int maxlen) {
  std::vector<std::vector<int>> out;
  std::vector<int> cur;
  std::function<void(int)> rec = [&](int from) {
    if ((int)cur.size() >= minlen) out.push_back(cur);
    if ((int)cur.size() == maxlen) return;
    for (int x = from; x <= hi; ++x) {
      cur.push_back(x);
      rec(x + 1);
      cur.pop_back();
    }
  };
  rec(lo);
  return out;
}
}  // namespace vp
#endif
