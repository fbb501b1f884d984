// P08: sampling integers modulo N.
#include <cmath>

#include "dpf/internal/value_type_helpers.h"
#include "types.h"
using namespace vp;
namespace di = dp::dpf_internal;

// The documented sampling procedure, over exact integers.
static std::vector<u128> RefSample(const std::string& bytes, u128 n, int base_bytes, int k) {
  auto le = [&](size_t at, size_t len) {
    u128 r = 0;
    for (size_t i = 0; i < len; ++i) r |= u128{static_cast<uint8_t>(bytes[at + i])} << (8 * i);
    return r;
  };
  std::vector<u128> out;
  u128 r = le(0, 16);
  size_t at = 16;
  for (int i = 0; i < k; ++i) {
    out.push_back(r % n);
    if (i + 1 < k) {
      u128 q = r / n;
      u128 fresh = le(at, base_bytes);
      at += base_bytes;
      r = base_bytes < 16 ? (q << (8 * base_bytes)) | fresh : fresh;
    }
  }
  return out;
}
template <typename M, int kTuple>
struct TupleOf;
template <typename M> struct TupleOf<M, 1> { using T = dp::Tuple<M>; };
template <typename M> struct TupleOf<M, 2> { using T = dp::Tuple<M, M>; };
template <typename M> struct TupleOf<M, 3> { using T = dp::Tuple<M, M, M>; };
template <typename M> struct TupleOf<M, 5> { using T = dp::Tuple<M, M, M, M, M>; };

template <typename B, unsigned __int128 kN, int kCompiled>
static void UnsafeWith(const std::string& bytes, int k, std::vector<u128>& out) {
  using M = dp::IntModN<B, kN>;
  std::vector<M> v(k, M(1));
  M::template UnsafeSampleFromBytes<kCompiled>(bytes, 40, absl::MakeSpan(v));
  for (auto& m : v) out.push_back(u128(m.value()));
}
static bool Attainable(u128 n, int k, double sec) { return sec <= 128 + 3 - (std::log2(static_cast<double>(n)) + std::log2(double(k)) + std::log2(double(k + 1))); }

template <typename B, unsigned __int128 kN>
static void SampleMod(std::vector<int> ks) {
  using M = dp::IntModN<B, kN>;
  const u128 n = u128(kN);
  const int bb = sizeof(B);
  for (int k : ks) {
    if (!Case(F("sample/mod%d_%s/k%d", 8 * bb, S(n).c_str(), k))) continue;
    const int need = 16 + bb * (k - 1);
    // Byte accounting for every security level on a grid around the limit.
    double limit = 131 - (std::log2(static_cast<double>(n)) + std::log2(double(k)) + std::log2(double(k + 1)));
    if (std::fabs(di::IntModNBase::GetSecurityLevel(k, n) - limit) > 1e-9) Fail("security-level", "GetSecurityLevel(%d) = %f, exact %f", k, di::IntModNBase::GetSecurityLevel(k, n), limit);
    for (double sec : {0.0, 1.0, 40.0, 60.0, limit - 0.01, limit + 0.01, 128.0, 200.0}) {
      auto got = M::GetNumBytesRequired(k, sec);
      auto got2 = di::IntModNBase::GetNumBytesRequired(k, 8 * bb, n, sec);
      Trans(2);
      for (auto* g : {&got, &got2}) {
        if (g->ok() != (sec <= limit)) Fail("bytes-accept", "security %f, attainable %f: %s", sec, limit, g->status().ToString().c_str());
        else if (g->ok() && **g != need) Fail("bytes-count", "security %f: %d bytes, expected %d", sec, **g, need);
        else if (!g->ok() && !absl::IsInvalidArgument(g->status())) Fail("bytes-error", "%s", g->status().ToString().c_str());
      }
    }
    // Byte strings: constants, every walking one, every walking zero in the random part, streams.
    std::vector<std::string> inputs;
    for (int c : {0, 255, 128, 1, 0x55}) inputs.push_back(std::string(need, char(c)));
    for (int b = 0; b < 8 * need; ++b) {
      std::string s(need, 0);
      s[b / 8] = char(1 << (b % 8));
      inputs.push_back(s);
      std::string f(need, char(255));
      f[b / 8] = char(~(1 << (b % 8)));
      inputs.push_back(f);
      std::string m;
      for (int i = 0; i < need; ++i) m += char(Mix(i * 91 + 7));
      m[b / 8] ^= char(1 << (b % 8));
      inputs.push_back(m);
    }
    for (int s = 0; s < Pick(60, 1000); ++s) {
      std::string m;
      for (int i = 0; i < need; ++i) m += char(Mix(i * 1000003 + s));
      inputs.push_back(m);
    }
    // First block around multiples of N.
    for (u128 q : {u128{0}, u128{1}, u128{2}, ~u128{0} / n}) for (int d = -1; d <= 1; ++d) {
      u128 r = q * n + (d < 0 ? ~u128{0} : u128(d));
      std::string m;
      for (int i = 0; i < 16; ++i) m += char(absl::Uint128Low64(r >> (8 * i)) & 255);
      m += std::string(need - 16, char(0xa5));
      inputs.push_back(m);
    }
    for (auto& in : inputs) {
      auto want = RefSample(in, n, bb, k);
      auto bad = [&](const char* what, const std::vector<u128>& got) {
        if (got == want) return;
        std::string hex;
        for (unsigned char c : in) hex += F("%02x", c);
        Fail(what, "%s: %s, expected %s", hex.c_str(), Show(got.data(), got.size()).c_str(), Show(want.data(), want.size()).c_str());
      };
      std::vector<u128> a, b, c;
      UnsafeWith<B, kN, 1>(in, k, a);
      bad("unsafe-1", a);
      UnsafeWith<B, kN, 6>(in, k, b);
      bad("unsafe-6", b);
      std::vector<M> v(k, M(1));
      auto st = M::SampleFromBytes(in, 0, absl::MakeSpan(v));
      if (limit >= 0) {
        if (!st.ok()) Fail("sample-refused", "%s", st.ToString().c_str());
        for (auto& m : v) c.push_back(u128(m.value()));
        bad("sample", c);
        // surplus bytes are ignored
        std::vector<M> v2(k);
        auto st2 = M::SampleFromBytes(in + "surplus surplus surplus", 0, absl::MakeSpan(v2));
        if (!st2.ok() || v2 != v) Fail("sample-surplus", "surplus bytes change the result");
        auto st3 = M::SampleFromBytes(absl::string_view(in).substr(0, need - 1), 0, absl::MakeSpan(v2));
        if (!absl::IsInvalidArgument(st3)) Fail("sample-short", "%d bytes accepted", need - 1);
      }
      // The path key generation and evaluation take.
      auto tup = [&](auto tag) {
        using T = typename decltype(tag)::T;
        std::vector<u128> f;
        TR<T>::Flat(di::FromBytes<T>(in), f);
        bad("tuple", f);
      };
      if (k == 1) { tup(TupleOf<M, 1>{}); bad("single", {u128(di::FromBytes<M>(in).value())}); }
      if (k == 2) tup(TupleOf<M, 2>{});
      if (k == 3) tup(TupleOf<M, 3>{});
      if (k == 5) tup(TupleOf<M, 5>{});
      Trans(5); Trace(); State(Hash(in));
    }
  }
}
static void RunSample() {
  std::vector<int> ks = {1, 2, 3, 4, 5, 8, 17, 130, 300};
  SampleMod<uint8_t, 1>(ks); SampleMod<uint8_t, 2>(ks); SampleMod<uint8_t, 3>(ks); SampleMod<uint8_t, 128>(ks); SampleMod<uint8_t, 251>(ks); SampleMod<uint8_t, 255>(ks);
  SampleMod<uint16_t, 2>(ks); SampleMod<uint16_t, 257>(ks); SampleMod<uint16_t, 65535>(ks);
  SampleMod<uint32_t, 3>(ks); SampleMod<uint32_t, 65537>(ks); SampleMod<uint32_t, 4294967291u>(ks); SampleMod<uint32_t, 2147483648u>(ks);
  SampleMod<uint64_t, 10>(ks); SampleMod<uint64_t, 1000000007ull>(ks); SampleMod<uint64_t, 18446744073709551557ull>(ks); SampleMod<uint64_t, 9223372036854775808ull>(ks);
  constexpr unsigned __int128 one = 1;
  SampleMod<u128, 7>(ks); SampleMod<u128, (one << 64) + 13>(ks); SampleMod<u128, (one << 80)>(ks); SampleMod<u128, (one << 100) + 277>(ks);
  // Parameter checks on a grid.
  if (Case("check-parameters")) {
    for (int k : {-1, 0, 1, 2, 3, 10, 1000}) for (int bits : {-8, 0, 1, 8, 16, 32, 64, 127, 128, 129, 256})
      for (u128 n : {u128{1}, u128{2}, u128{255}, u128{256}, u128{257}, u128{65536}, u128{65537}, u128{1} << 32, (u128{1} << 32) + 1, u128{1} << 63, u128{1} << 64, (u128{1} << 64) + 1, u128{1} << 127, ~u128{0}})
        for (double sec : {0.0, 20.0, 40.0, 64.0, 100.0, 131.0}) {
          bool fits = bits > 0 && bits <= 128 && (bits == 128 || n <= (u128{1} << bits));
          bool want = k > 0 && fits && Attainable(n, k, sec);
          auto got = di::IntModNBase::CheckParameters(k, bits, n, sec);
          auto nb = di::IntModNBase::GetNumBytesRequired(k, bits, n, sec);
          Trans(2); Trace(); State(Hash(F("%d %d %s %f", k, bits, S(n).c_str(), sec)));
          if (got.ok() != want || nb.ok() != want) Fail("check-parameters", "k=%d bits=%d N=%s sec=%f: %s", k, bits, S(n).c_str(), sec, got.ToString().c_str());
          else if (want && *nb != 16 + (bits + 7) / 8 * (k - 1)) Fail("check-bytes", "k=%d bits=%d: %d bytes", k, bits, *nb);
          else if (!want && !absl::IsInvalidArgument(got)) Fail("check-error", "%s", got.ToString().c_str());
        }
    std::vector<dp::IntModN<uint8_t, 5>> none;
    if (!absl::IsInvalidArgument(dp::IntModN<uint8_t, 5>::SampleFromBytes(std::string(64, 'a'), 0, absl::MakeSpan(none)))) Fail("sample-none", "zero samples accepted");
  }
  Sample("every walking-one and walking-zero byte string for 21 moduli and 1..17 draws");
}

void VpRun() { RunSample(); }
