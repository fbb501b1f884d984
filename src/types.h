// Type-erased access to the DPF API for every value type used by the harnesses,
// plus a reference model of the types' own arithmetic on plain 128-bit leaves.
#ifndef VP_TYPES_H_
#define VP_TYPES_H_
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/status/statusor.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "vp.h"

namespace vp {
namespace dp = distributed_point_functions;
using u128 = absl::uint128;
using dp::DpfKey;
using dp::DpfParameters;
using dp::EvaluationContext;
using Dpf = dp::DistributedPointFunction;

inline std::string S(u128 x) {
  if (absl::Uint128High64(x) == 0) return F("%llu", (unsigned long long)absl::Uint128Low64(x));
  return F("0x%llx%016llx", (unsigned long long)absl::Uint128High64(x),
           (unsigned long long)absl::Uint128Low64(x));
}
inline u128 MaskBits(int bits) { return bits >= 128 ? ~u128{0} : (u128{1} << bits) - 1; }

enum LeafKind { kInt, kMod, kXor };
struct Leaf {
  LeafKind kind;
  int bits;
  u128 mod;  // kMod only
};

// Reference arithmetic.
inline u128 RefAdd(const Leaf& l, u128 a, u128 b) {
  switch (l.kind) {
    case kInt: return (a + b) & MaskBits(l.bits);
    case kXor: return a ^ b;
    case kMod: return (b == 0 || a < l.mod - b) ? a + b : a - (l.mod - b);
  }
  return 0;
}
inline u128 RefNeg(const Leaf& l, u128 a) {
  switch (l.kind) {
    case kInt: return (u128{0} - a) & MaskBits(l.bits);
    case kXor: return a;
    case kMod: return a == 0 ? a : l.mod - a;
  }
  return 0;
}

template <typename T>
struct UIntTraits {
  static constexpr bool value = std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
                                std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value ||
                                std::is_same<T, u128>::value
#ifdef ABSL_HAVE_INTRINSIC_INT128
                                || std::is_same<T, unsigned __int128>::value
#endif
      ;
};

// Per-type traits: leaf list, flattening, building from leaves, name.
template <typename T, typename = void>
struct TR;

template <typename T>
struct TR<T, std::enable_if_t<UIntTraits<T>::value>> {
  static void Leaves(std::vector<Leaf>& v) { v.push_back({kInt, int(8 * sizeof(T)), 0}); }
  static void Flat(const T& t, std::vector<u128>& v) { v.push_back(u128(t)); }
  static T Build(const u128*& p) { return static_cast<T>(*p++); }
  static std::string Name() { return F("u%d", int(8 * sizeof(T))); }
};
template <typename B, typename M, M kN>
struct TR<dp::dpf_internal::IntModNImpl<B, M, kN>, void> {
  using T = dp::dpf_internal::IntModNImpl<B, M, kN>;
  static void Leaves(std::vector<Leaf>& v) { v.push_back({kMod, int(8 * sizeof(B)), u128(kN)}); }
  static void Flat(const T& t, std::vector<u128>& v) { v.push_back(u128(t.value())); }
  static T Build(const u128*& p) { return T(static_cast<B>(*p++)); }
  static std::string Name() { return F("mod%d_", int(8 * sizeof(B))) + S(u128(kN)); }
};
template <typename U>
struct TR<dp::XorWrapper<U>, void> {
  using T = dp::XorWrapper<U>;
  static void Leaves(std::vector<Leaf>& v) { v.push_back({kXor, int(8 * sizeof(U)), 0}); }
  static void Flat(const T& t, std::vector<u128>& v) { v.push_back(u128(t.value())); }
  static T Build(const u128*& p) { return T(static_cast<U>(*p++)); }
  static std::string Name() { return F("xor%d", int(8 * sizeof(U))); }
};
template <typename... E>
struct TR<dp::Tuple<E...>, void> {
  using T = dp::Tuple<E...>;
  static void Leaves(std::vector<Leaf>& v) { (TR<E>::Leaves(v), ...); }
  template <size_t... I>
  static void FlatI(const T& t, std::vector<u128>& v, std::index_sequence<I...>) {
    (TR<E>::Flat(std::get<I>(t.value()), v), ...);
  }
  static void Flat(const T& t, std::vector<u128>& v) {
    FlatI(t, v, std::index_sequence_for<E...>{});
  }
  static T Build(const u128*& p) {
    return T(typename T::Base{TR<E>::Build(p)...});  // braces: left to right
  }
  static std::string Name() {
    std::string s = "(";
    ((s += (s.size() > 1 ? "," : "") + TR<E>::Name()), ...);
    return s + ")";
  }
};

using Flat = std::vector<u128>;  // values flattened into leaves, stride = #leaves
template <typename T>
Flat Flatten(const std::vector<T>& v) {
  Flat f;
  f.reserve(v.size());
  for (const T& t : v) TR<T>::Flat(t, f);
  return f;
}

struct TypeOps {
  std::string name;
  dp::ValueType vt;
  std::vector<Leaf> leaves;
  std::function<dp::Value(const Flat&)> encode;
  std::function<absl::StatusOr<Flat>(const dp::Value&)> decode;
  std::function<absl::Status(Dpf&)> reg;
  std::function<absl::StatusOr<Flat>(const Dpf&, int, absl::Span<const u128>, EvaluationContext&)> until;
  std::function<absl::StatusOr<Flat>(const Dpf&, absl::Span<const u128>, EvaluationContext&)> next;
  std::function<absl::StatusOr<Flat>(const Dpf&, const DpfKey&, int, absl::Span<const u128>)> at;
  std::function<absl::StatusOr<Flat>(const Dpf&, int, absl::Span<const u128>, EvaluationContext&)> at_ctx;
  // Calls cb with the flattened values of each level; cb returns "go on".
  std::function<absl::Status(const Dpf&, absl::Span<const DpfKey* const>, absl::Span<const u128>,
                             std::function<bool(Flat)>, int)>
      apply;
  std::function<absl::Status(const Dpf&, absl::Span<const DpfKey>, absl::Span<const u128>,
                             std::function<bool(Flat)>, int)>
      apply_obj;
  int n() const { return static_cast<int>(leaves.size()); }
  int64_t Size(const Flat& f) const { return static_cast<int64_t>(f.size()) / n(); }
};

template <typename T>
TypeOps MakeOps() {
  TypeOps o;
  o.name = TR<T>::Name();
  o.vt = dp::ToValueType<T>();
  TR<T>::Leaves(o.leaves);
  o.encode = [](const Flat& f) {
    const u128* p = f.data();
    return dp::ToValue<T>(TR<T>::Build(p));
  };
  o.decode = [](const dp::Value& v) -> absl::StatusOr<Flat> {
    absl::StatusOr<T> t = dp::FromValue<T>(v);
    if (!t.ok()) return t.status();
    Flat f;
    TR<T>::Flat(*t, f);
    return f;
  };
  o.reg = [](Dpf& d) { return d.RegisterValueType<T>(); };
  auto conv = [](absl::StatusOr<std::vector<T>> r) -> absl::StatusOr<Flat> {
    if (!r.ok()) return r.status();
    return Flatten(*r);
  };
  o.until = [conv](const Dpf& d, int level, absl::Span<const u128> p, EvaluationContext& c) {
    return conv(d.EvaluateUntil<T>(level, p, c));
  };
  o.next = [conv](const Dpf& d, absl::Span<const u128> p, EvaluationContext& c) {
    return conv(d.EvaluateNext<T>(p, c));
  };
  o.at = [conv](const Dpf& d, const DpfKey& k, int level, absl::Span<const u128> p) {
    return conv(d.EvaluateAt<T>(k, level, p));
  };
  o.at_ctx = [conv](const Dpf& d, int level, absl::Span<const u128> p, EvaluationContext& c) {
    return conv(d.EvaluateAt<T>(level, p, c));
  };
  o.apply = [](const Dpf& d, absl::Span<const DpfKey* const> k, absl::Span<const u128> p,
               std::function<bool(Flat)> cb, int shift) {
    auto op = [&cb](absl::Span<const T> v) { return cb(Flatten(std::vector<T>(v.begin(), v.end()))); };
    return d.EvaluateAndApply<T>(k, p, op, shift);
  };
  o.apply_obj = [](const Dpf& d, absl::Span<const DpfKey> k, absl::Span<const u128> p,
                   std::function<bool(Flat)> cb, int shift) {
    auto op = [&cb](absl::Span<const T> v) { return cb(Flatten(std::vector<T>(v.begin(), v.end()))); };
    return d.EvaluateAndApply<T>(k, p, op, shift);
  };
  return o;
}

// A few characteristic values of a type: zero, one, all-max, distinct leaves.
inline std::vector<Flat> Betas(const TypeOps& o, int how_many) {
  std::vector<Flat> out;
  for (int k = 0; k < how_many; ++k) {
    Flat f;
    for (int i = 0; i < o.n(); ++i) {
      const Leaf& l = o.leaves[i];
      u128 top = l.kind == kMod ? l.mod - 1 : MaskBits(l.bits);
      u128 pat = absl::MakeUint128(Mix(1000 * k + i), Mix(2000 * k + i + 7));
      u128 v;
      switch (k) {
        case 0: v = pat; break;
        case 1: v = top; break;
        case 2: v = 1; break;
        case 3: v = 0; break;
        default: v = pat;
      }
      if (l.kind == kMod) v = v % l.mod;
      else v &= MaskBits(l.bits);
      f.push_back(v);
    }
    out.push_back(f);
  }
  return out;
}

inline DpfParameters Param(int log_domain, const TypeOps& o, double sec = 0) {
  DpfParameters p;
  p.set_log_domain_size(log_domain);
  *p.mutable_value_type() = o.vt;
  // The default (40 + log domain size) is out of reach for integers mod N on large domains.
  bool mod = false;
  for (const Leaf& l : o.leaves) mod |= l.kind == kMod;
  if (sec == 0 && log_domain > (mod ? 8 : 50)) sec = 40;
  if (sec != 0) p.set_security_parameter(sec);
  return p;
}

// Does the sum of the two parties' shares (leaf-wise) equal `want`?
inline bool SumIs(const TypeOps& o, const u128* a, const u128* b, const u128* want) {
  for (int i = 0; i < o.n(); ++i) {
    u128 w = want ? want[i] : u128{0};
    if (RefAdd(o.leaves[i], a[i], b[i]) != w) return false;
  }
  return true;
}
// Every leaf in range for its type?
inline bool InRange(const TypeOps& o, const u128* a) {
  for (int i = 0; i < o.n(); ++i) {
    const Leaf& l = o.leaves[i];
    if (l.kind == kMod ? a[i] >= l.mod : (a[i] & ~MaskBits(l.bits)) != 0) return false;
  }
  return true;
}
inline uint64_t HashFlat(const Flat& f, uint64_t h = 0) {
  return Hash(f.data(), f.size() * sizeof(u128), h);
}
inline std::string Show(const u128* p, int n) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += (i ? " " : "") + S(p[i]);
  return s + "]";
}
inline std::string ShowList(absl::Span<const u128> v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? "," : "") + S(v[i]);
  return s + (v.size() > 24 ? ",..}" : "}");
}
}  // namespace vp
#endif
