// Type-erased access to the distributed comparison function.
#ifndef VP_DCF_OPS_H_
#define VP_DCF_OPS_H_
#include "dcf/distributed_comparison_function.h"
#include "hier.h"
#include "types.h"

namespace vp {
using Dcf = dp::DistributedComparisonFunction;
using dp::DcfKey;
using dp::DcfParameters;
struct DcfOps {
  TypeOps o;
  std::function<absl::StatusOr<std::pair<DcfKey, DcfKey>>(Dcf&, u128, const Flat&)> keys;  // from the C++ type
  std::function<absl::StatusOr<Flat>(Dcf&, const DcfKey&, u128)> eval;
  std::function<absl::StatusOr<Flat>(Dcf&, absl::Span<const DcfKey>, absl::Span<const u128>)> batch_obj;
  std::function<absl::StatusOr<Flat>(Dcf&, absl::Span<const DcfKey* const>, absl::Span<const u128>)> batch_ptr;
  // Writes to a caller's array of the given size, filled with garbage before.
  std::function<absl::StatusOr<Flat>(Dcf&, absl::Span<const DcfKey* const>, absl::Span<const u128>, int)> batch_out;
};
template <typename T>
DcfOps MakeDcf() {
  DcfOps d;
  d.o = MakeOps<T>();
  d.keys = [](Dcf& f, u128 alpha, const Flat& b) {
    const u128* p = b.data();
    return f.GenerateKeys(alpha, TR<T>::Build(p));
  };
  d.eval = [](Dcf& f, const DcfKey& k, u128 x) -> absl::StatusOr<Flat> {
    auto r = f.Evaluate<T>(k, x);
    if (!r.ok()) return r.status();
    Flat out;
    TR<T>::Flat(*r, out);
    return out;
  };
  d.batch_obj = [](Dcf& f, absl::Span<const DcfKey> k, absl::Span<const u128> x) -> absl::StatusOr<Flat> {
    auto r = f.BatchEvaluate<T>(k, x);
    if (!r.ok()) return r.status();
    return Flatten(*r);
  };
  d.batch_ptr = [](Dcf& f, absl::Span<const DcfKey* const> k, absl::Span<const u128> x) -> absl::StatusOr<Flat> {
    auto r = f.BatchEvaluate<T>(k, x);
    if (!r.ok()) return r.status();
    return Flatten(*r);
  };
  auto o = d.o;
  d.batch_out = [o](Dcf& f, absl::Span<const DcfKey* const> k, absl::Span<const u128> x, int n) -> absl::StatusOr<Flat> {
    Flat dirty = Betas(o, 1)[0];
    const u128* p = dirty.data();
    std::vector<T> out(n, TR<T>::Build(p));
    auto r = f.BatchEvaluate<T>(k, x, absl::MakeSpan(out));
    if (!r.ok()) return r;
    return Flatten(out);
  };
  return d;
}
inline DcfParameters DcfParam(int n, const TypeOps& o) {
  DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(n);
  *p.mutable_parameters()->mutable_value_type() = o.vt;
  return p;
}
}  // namespace vp
#endif
