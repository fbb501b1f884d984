// P07: group laws of the output types.
#include <cmath>

#include "dpf/internal/value_type_helpers.h"
#include "types.h"
using namespace vp;
namespace di = dp::dpf_internal;

template <typename B, unsigned __int128 kN>
static void ModGroup(const std::vector<u128>& vals, const std::vector<u128>& raw) {
  using M = dp::IntModN<B, kN>;
  const Leaf l{kMod, int(8 * sizeof(B)), u128(kN)};
  if (u128(M().value()) != 0) Fail("mod-zero", "default is %s", S(u128(M().value())).c_str());
  if (u128(M::modulus()) != u128(kN)) Fail("mod-modulus", "modulus() is %s", S(u128(M::modulus())).c_str());
  for (u128 r : raw) {
    M c(static_cast<B>(r)), a;
    a = static_cast<B>(r);
    if (u128(c.value()) != r % l.mod || u128(a.value()) != r % l.mod) Fail("mod-construct", "%s: %s / %s", S(r).c_str(), S(u128(c.value())).c_str(), S(u128(a.value())).c_str());
    Trans();
  }
  for (u128 x : vals) {
    M a(static_cast<B>(x));
    State(Hash(&x, 16));
    auto is = [&](const char* what, M m, u128 want) {
      if (u128(m.value()) != want) Fail(std::string("mod-") + what, "x=%s: %s, expected %s", S(x).c_str(), S(u128(m.value())).c_str(), S(want).c_str());
    };
    is("neg", -a, RefNeg(l, x));
    M s = a; s += s; is("self-add", s, RefAdd(l, x, x));
    s = a; s -= s; is("self-sub", s, 0);
    s = a; const M& alias = s; s += alias; is("alias-add", s, RefAdd(l, x, x));
    is("unchanged", a, x);
    for (u128 y : vals) {
      M b(static_cast<B>(y));
      u128 sum = RefAdd(l, x, y), dif = RefAdd(l, x, RefNeg(l, y));
      if (u128((a + b).value()) != sum) Fail("mod-add", "%s + %s = %s", S(x).c_str(), S(y).c_str(), S(u128((a + b).value())).c_str());
      if (u128((a - b).value()) != dif) Fail("mod-sub", "%s - %s = %s", S(x).c_str(), S(y).c_str(), S(u128((a - b).value())).c_str());
      M c = a; c += b; if (u128(c.value()) != sum) Fail("mod-addassign", "%s += %s: %s", S(x).c_str(), S(y).c_str(), S(u128(c.value())).c_str());
      M d = a; M& rd = (d -= b); if (u128(d.value()) != dif || &rd != &d) Fail("mod-subassign", "%s -= %s: %s", S(x).c_str(), S(y).c_str(), S(u128(d.value())).c_str());
      if ((a == b) != (x == y) || (a != b) == (x == y)) Fail("mod-compare", "%s, %s", S(x).c_str(), S(y).c_str());
      Trans(6);
    }
    Trace();
  }
}
template <int N>
static void Mod8() {
  std::vector<u128> v, raw;
  for (int i = 0; i < N; ++i) v.push_back(i);
  for (int i = 0; i < 256; ++i) raw.push_back(i);
  ModGroup<uint8_t, N>(v, raw);
}
template <int... I>
static void AllMod8(std::integer_sequence<int, I...>) {
  ((Case(F("mod8/%d", I + 1)) ? Mod8<I + 1>() : void()), ...);
}
template <typename B, unsigned __int128 kN>
static void ModB() {
  u128 n = u128(kN);
  if (!Case(F("mod%d/%s", int(8 * sizeof(B)), S(n).c_str()))) return;
  std::set<u128> v, raw;
  for (u128 d = 0; d < 40; ++d) for (u128 base : {u128{0}, n / 2, n / 3, n - 1, u128{1} << (4 * sizeof(B)), n - (n >> 4)}) {
    v.insert((base + d) % n);
    v.insert((base + n - d % n) % n);
  }
  for (int i = 0; i < 60; ++i) v.insert(absl::MakeUint128(Mix(i), Mix(i + 100)) % n);
  for (u128 x : v) raw.insert(x);
  u128 m = MaskBits(8 * sizeof(B));
  for (u128 d = 0; d < 5; ++d) { raw.insert(m - d); raw.insert((n + d) & m); raw.insert((2 * n + d) & m); raw.insert((n - 1 - d) & m); }
  if (n <= 600) for (u128 x = 0; x < n; ++x) v.insert(x);
  ModGroup<B, kN>(std::vector<u128>(v.begin(), v.end()), std::vector<u128>(raw.begin(), raw.end()));
}
template <typename U>
static void XorGroup() {
  using X = dp::XorWrapper<U>;
  std::vector<u128> vals;
  if (sizeof(U) == 1) for (int i = 0; i < 256; ++i) vals.push_back(i);
  else {
    u128 m = MaskBits(8 * sizeof(U));
    vals = {0, 1, m, m >> 1, (m >> 1) + 1};
    for (int i = 0; i < int(8 * sizeof(U)); ++i) vals.push_back(u128{1} << i);
    for (int i = 0; i < 40; ++i) vals.push_back(absl::MakeUint128(Mix(i), Mix(i + 9)) & m);
  }
  if (X().value() != U{0}) Fail("xor-zero", "default is not zero");
  for (u128 x : vals) for (u128 y : vals) {
    const X a(static_cast<U>(x)), b(static_cast<U>(y));
    X c = a, d = a, e = a;
    X &rc = (c += b), &rd = (d -= b);
    U w = static_cast<U>(x ^ y);
    if ((a + b).value() != w || (a - b).value() != w || c.value() != w || d.value() != w || &rc != &c || &rd != &d) Fail("xor-add", "%s, %s", S(x).c_str(), S(y).c_str());
    if ((-a).value() != U(x)) Fail("xor-neg", "%s", S(x).c_str());
    if ((a == b) != (x == y) || (a != b) == (x == y)) Fail("xor-compare", "%s, %s", S(x).c_str(), S(y).c_str());
    e += e;
    if (e.value() != U{0}) Fail("xor-self", "%s", S(x).c_str());
    e.value() = static_cast<U>(y);
    X f = std::move(e);
    if (f != b || a.value() != U(x)) Fail("xor-access", "%s %s", S(x).c_str(), S(y).c_str());
    State(Hash(&x, 16, Hash(&y, 16)));
    Trans(8);
  }
  Trace();
}
template <typename T>
static void TupleGroup() {
  std::vector<Leaf> leaves;
  TR<T>::Leaves(leaves);
  if (!Case("tuple/" + TR<T>::Name())) return;
  const int n = leaves.size();
  std::vector<std::vector<u128>> per;
  for (auto& l : leaves) {
    u128 top = l.kind == kMod ? l.mod - 1 : MaskBits(l.bits);
    per.push_back({0, 1, top, top / 2 + 1});
    if (n <= 2) for (u128 x : {top / 2, top - 1, top / 3}) per.back().push_back(x);
  }
  std::vector<Flat> vals;
  Flat cur(n);
  size_t limit = Pick(1000, 4000), seen = 0;
  std::function<void(int)> rec = [&](int i) {
    if (i == n) { if (vals.size() < limit && (n <= 4 || Mix(seen++) % 16 == 0)) vals.push_back(cur); return; }
    for (u128 x : per[i]) { cur[i] = x; rec(i + 1); }
  };
  rec(0);
  auto mk = [](const Flat& f) { const u128* p = f.data(); return TR<T>::Build(p); };
  auto fl = [](const T& t) { Flat f; TR<T>::Flat(t, f); return f; };
  auto add = [&](const Flat& a, const Flat& b) { Flat r(n); for (int i = 0; i < n; ++i) r[i] = RefAdd(leaves[i], a[i], b[i]); return r; };
  auto neg = [&](const Flat& a) { Flat r(n); for (int i = 0; i < n; ++i) r[i] = RefNeg(leaves[i], a[i]); return r; };
  auto sh = [&](const Flat& f) { return Show(f.data(), n); };
  if (fl(T{}) != Flat(n, 0)) Fail("tuple-zero", "default is %s", sh(fl(T{})).c_str());
  for (auto& x : vals) {
    const T a = mk(x);
    State(HashFlat(x));
    if (fl(a) != x) Fail("tuple-build", "%s", sh(x).c_str());
    if (fl(-a) != neg(x)) Fail("tuple-neg", "-%s = %s", sh(x).c_str(), sh(fl(-a)).c_str());
    T s = a; s += s;
    if (fl(s) != add(x, x)) Fail("tuple-self-add", "%s: %s", sh(x).c_str(), sh(fl(s)).c_str());
    s = a; s -= s;
    if (fl(s) != Flat(n, 0)) Fail("tuple-self-sub", "%s: %s", sh(x).c_str(), sh(fl(s)).c_str());
    T viaBase(a.value());
    if (fl(viaBase) != x) Fail("tuple-base", "%s", sh(x).c_str());
    for (auto& y : vals) {
      const T b = mk(y);
      Flat sum = add(x, y), dif = add(x, neg(y));
      if (fl(a + b) != sum) Fail("tuple-add", "%s + %s = %s", sh(x).c_str(), sh(y).c_str(), sh(fl(a + b)).c_str());
      if (fl(a - b) != dif) Fail("tuple-sub", "%s - %s = %s", sh(x).c_str(), sh(y).c_str(), sh(fl(a - b)).c_str());
      T c = a; T& rc = (c += b);
      if (fl(c) != sum || &rc != &c) Fail("tuple-addassign", "%s += %s = %s", sh(x).c_str(), sh(y).c_str(), sh(fl(c)).c_str());
      T d = a; T& rd = (d -= b);
      if (fl(d) != dif || &rd != &d) Fail("tuple-subassign", "%s -= %s = %s", sh(x).c_str(), sh(y).c_str(), sh(fl(d)).c_str());
      if ((a == b) != (x == y) || (a != b) == (x == y)) Fail("tuple-compare", "%s, %s", sh(x).c_str(), sh(y).c_str());
      if (fl(b) != y || fl(a) != x) Fail("tuple-const", "operands changed");
      Trans(6);
    }
    Trace();
  }
}
static void RunGroup() {
  AllMod8(std::make_integer_sequence<int, 255>{});
  ModB<uint16_t, 1>(); ModB<uint16_t, 2>(); ModB<uint16_t, 3>(); ModB<uint16_t, 256>(); ModB<uint16_t, 257>(); ModB<uint16_t, 600>();
  ModB<uint16_t, 32768>(); ModB<uint16_t, 32769>(); ModB<uint16_t, 65521>(); ModB<uint16_t, 65535>();
  ModB<uint32_t, 7>(); ModB<uint32_t, 65536>(); ModB<uint32_t, 65537>(); ModB<uint32_t, 2147483647u>(); ModB<uint32_t, 2147483648u>();
  ModB<uint32_t, 2147483649u>(); ModB<uint32_t, 4294967291u>(); ModB<uint32_t, 4294967295u>();
  ModB<uint64_t, 5>(); ModB<uint64_t, 4294967296ull>(); ModB<uint64_t, 1000000007ull>(); ModB<uint64_t, 9223372036854775808ull>();
  ModB<uint64_t, 9223372036854775837ull>(); ModB<uint64_t, 18446744073709551557ull>(); ModB<uint64_t, 18446744073709551615ull>();
  constexpr unsigned __int128 one = 1;
  ModB<u128, 3>(); ModB<u128, (one << 64)>(); ModB<u128, (one << 64) + 13>(); ModB<u128, (one << 80)>(); ModB<u128, (one << 127)>();
  ModB<u128, (one << 127) + 29>(); ModB<u128, ~(unsigned __int128)0>(); ModB<u128, ~(unsigned __int128)0 - 158>(); ModB<unsigned __int128, (one << 100) + 277>();
  if (Case("xor8")) XorGroup<uint8_t>();
  if (Case("xor16")) XorGroup<uint16_t>();
  if (Case("xor32")) XorGroup<uint32_t>();
  if (Case("xor64")) XorGroup<uint64_t>();
  if (Case("xor128")) XorGroup<u128>();
  using dp::Tuple; using dp::XorWrapper;
  using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
  using M8 = dp::IntModN<u8, 251>; using M32 = dp::IntModN<u32, 4294967291u>; using M64 = dp::IntModN<u64, 1000000007ull>;
  TupleGroup<Tuple<u8>>(); TupleGroup<Tuple<u16, u8>>(); TupleGroup<Tuple<u8, u16, u32>>(); TupleGroup<Tuple<u64, u128>>();
  TupleGroup<Tuple<u8, u8, u8, u8>>(); TupleGroup<Tuple<M8>>(); TupleGroup<Tuple<M32, M32>>(); TupleGroup<Tuple<M64, u8, M8>>();
  TupleGroup<Tuple<XorWrapper<u8>, u8>>(); TupleGroup<Tuple<u16, XorWrapper<u128>>>(); TupleGroup<Tuple<Tuple<u8, u16>, u32>>();
  TupleGroup<Tuple<u8, Tuple<M8, Tuple<XorWrapper<u16>>>>>(); TupleGroup<Tuple<u8, u16, u32, u64, u128>>(); TupleGroup<Tuple<u64, u64, u64, u64, u64, u64>>();
  TupleGroup<Tuple<M8, Tuple<u8, u8>, XorWrapper<u8>, M8>>();
  Sample("mod 1..255 on 8 bits: all pairs of values");
}

void VpRun() { RunGroup(); }
