// P14: multiple interval containment gate.
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "hier.h"
#include "vp_rand.h"
using namespace vp;
namespace fg = dp::fss_gates;
using Gate = fg::MultipleIntervalContainmentGate;
using fg::MicKey;
using fg::MicParameters;
namespace {
struct Iv {
  u128 p, q;
};
void SetInt(dp::Value::Integer* v, u128 x, int form) {
  // form 1: the 64-bit encoding where it fits.
  if (form && absl::Uint128High64(x) == 0) v->set_value_uint64(absl::Uint128Low64(x));
  else {
    v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
    v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  }
}
absl::StatusOr<std::unique_ptr<Gate>> Make(int n, const std::vector<Iv>& ivs, int form) {
  MicParameters p;
  p.set_log_group_size(n);
  for (auto& i : ivs) {
    auto* v = p.add_intervals();
    SetInt(v->mutable_lower_bound(), i.p, form & 1);
    SetInt(v->mutable_upper_bound(), i.q, form & 2);
  }
  return Gate::Create(p);
}
std::string Show(const Iv& i) { return "[" + S(i.p) + "," + S(i.q) + "]"; }

// One key pair; evaluated at the masked points xs.
void CheckKeys(int n, Gate& g, const std::vector<Iv>& ivs, u128 r_in, const std::vector<u128>& r_out,
               const std::vector<u128>& xs, int seeds, bool batch) {
  u128 mask = MaskBits(n);
  if (seeds == 1) R().ResetConst(0);
  else if (seeds == 2) R().ResetConst(0xff);
  else R().Reset(absl::Uint128Low64(r_in) * 5 + ivs.size());
  auto k = g.Gen(r_in, r_out);
  if (!k.ok()) {
    Fail("gen-refused", "r_in=%s: %s", S(r_in).c_str(), k.status().ToString().c_str());
    return;
  }
  std::vector<u128> all[2];
  for (u128 x : xs) {
    auto a = g.Eval(k->first, x), b = g.Eval(k->second, x);
    if (!a.ok() || !b.ok() || a->size() != ivs.size() || b->size() != ivs.size()) {
      Fail("eval-refused", "x=%s: %s %s", S(x).c_str(), a.status().ToString().c_str(), b.status().ToString().c_str());
      return;
    }
    u128 in = (x - r_in) & mask;
    for (size_t j = 0; j < ivs.size(); ++j) {
      u128 want = (r_out[j] + (in >= ivs[j].p && in <= ivs[j].q ? 1 : 0)) & mask;
      if ((((*a)[j] + (*b)[j]) & mask) != want)
        Fail("sum", "n=%d interval %zu of %zu %s r_in=%s r_out=%s x=%s (unmasked %s): %s + %s, want %s", n, j, ivs.size(),
             Show(ivs[j]).c_str(), S(r_in).c_str(), S(r_out[j]).c_str(), S(x).c_str(), S(in).c_str(), S((*a)[j]).c_str(),
             S((*b)[j]).c_str(), S(want).c_str());
    }
    all[0].insert(all[0].end(), a->begin(), a->end());
    all[1].insert(all[1].end(), b->begin(), b->end());
    Trans(2 * ivs.size());
  }
  Trace(2);
  State(HashFlat(all[0], HashFlat(all[1])));
  if (batch)
    for (int p = 0; p < 2; ++p) {
      std::vector<const MicKey*> ks(xs.size(), p ? &k->second : &k->first);
      auto r = g.BatchEval(ks, xs);
      if (!r.ok() || *r != all[p]) Fail("batch", "%zu points: %s", xs.size(), r.status().ToString().c_str());
    }
}
}  // namespace

void VpRun() {
  // Small groups: all intervals together in one gate, all masks, all inputs.
  for (int n = 1; n <= Pick(5, 6); ++n) {
    uint64_t N = uint64_t{1} << n;
    std::vector<Iv> ivs;
    for (uint64_t p = 0; p < N; ++p)
      for (uint64_t q = p; q < N; ++q) ivs.push_back({p, q});
    std::vector<u128> xs;
    for (uint64_t x = 0; x < N; ++x) xs.push_back(x);
    for (int form = 0; form < 4; ++form) {
      if (form && n > 3) continue;
      for (uint64_t r = 0; r < N; ++r) {
        if (!Case(F("all/n%d/f%d/r%llu", n, form, (unsigned long long)r))) continue;
        auto g = Make(n, ivs, form);
        if (!g.ok()) { Fail("create-refused", "%s", g.status().ToString().c_str()); continue; }
        for (uint64_t c = 0; c < N; ++c) {
          if (n > 4 && c > 1 && c != N - 1 && !Thorough()) continue;
          if (n > 5 && c > 1 && c != N - 1) continue;
          std::vector<u128> out;
          for (size_t j = 0; j < ivs.size(); ++j) out.push_back((j * 7 + c) % N);
          for (int s = 0; s < (n <= 3 ? 3 : 1); ++s) CheckKeys(n, **g, ivs, r, out, xs, s, true);
        }
        Sample(F("n=%d r_in=%llu: all %zu intervals, all inputs", n, (unsigned long long)r, ivs.size()));
      }
    }
    // Each interval alone, and all short lists.
    int maxlen = n <= 1 ? 4 : n == 2 ? 3 : n == 3 ? 2 : 1;
    if (n > 5) continue;
    std::vector<std::vector<int>> lists = {{}};
    for (size_t at = 0; at < lists.size(); ++at) {
      if ((int)lists[at].size() < maxlen)
        for (int j = 0; j < (int)ivs.size(); ++j) {
          auto l = lists[at];
          l.push_back(j);
          lists.push_back(l);
        }
    }
    size_t chunk = 60;
    for (size_t base = 0; base < lists.size(); base += chunk) {
      if (!Case(F("lists/n%d/%zu", n, base))) continue;
      for (size_t at = base; at < std::min(base + chunk, lists.size()); ++at) {
        std::vector<Iv> v;
        for (int j : lists[at]) v.push_back(ivs[j]);
        auto g = Make(n, v, at % 4);
        if (!g.ok()) { Fail("create-refused", "%zu intervals: %s", v.size(), g.status().ToString().c_str()); continue; }
        for (uint64_t r = 0; r < N; ++r) {
          std::vector<u128> out;
          for (size_t j = 0; j < v.size(); ++j) out.push_back((j * 3 + r + at) % N);
          CheckKeys(n, **g, v, r, out, xs, 0, r == 0);
        }
      }
    }
  }
  // Large groups at boundary positions.
  std::vector<int> ns = {7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 66, 96, 100, 125, 126, 127};
  if (Thorough()) {
    ns.clear();
    for (int n = 7; n <= 127; ++n) ns.push_back(n);
  }
  for (int n : ns) {
    u128 top = MaskBits(n), mid = u128{1} << (n - 1);
    std::vector<u128> b = {0, 1, 2, mid - 1, mid, mid + 1, top - 1, top, absl::MakeUint128(Mix(n), Mix(n + 1)) & top};
    if (n > 64) { b.push_back(~uint64_t{0}); b.push_back(u128{1} << 64); }
    std::vector<Iv> ivs;
    for (u128 p : b)
      for (u128 q : b)
        if (p <= q) ivs.push_back({p, q});
    for (size_t ri = 0; ri < b.size(); ++ri) {
      if (!Case(F("edge/n%d/r%zu", n, ri))) continue;
      auto g = Make(n, ivs, ri % 4);
      if (!g.ok()) { Fail("create-refused", "%s", g.status().ToString().c_str()); continue; }
      u128 r = b[ri];
      std::set<u128> pts;
      for (u128 x : b)
        for (int d = -1; d <= 1; ++d) {
          pts.insert((x + r + u128(d)) & top);   // around the bounds, masked
          pts.insert((x + u128(d)) & top);       // masked input itself at a boundary
        }
      for (int c = 0; c < 3; ++c) {
        std::vector<u128> out;
        for (size_t j = 0; j < ivs.size(); ++j) out.push_back(c == 0 ? u128{0} : c == 1 ? top : b[(j + ri) % b.size()]);
        CheckKeys(n, **g, ivs, r, out, std::vector<u128>(pts.begin(), pts.end()), c, c == 0);
      }
      Sample(F("n=%d r_in=%s: %zu boundary intervals, %zu inputs", n, S(r).c_str(), ivs.size(), pts.size()));
    }
  }
  // Batches of different keys at different points.
  for (int n : {1, 3, 10, 127})
    for (int m : {0, 1, 2, 5}) {
      if (!Case(F("batch/n%d/m%d", n, m))) continue;
      u128 top = MaskBits(n);
      std::vector<Iv> ivs;
      for (int j = 0; j < m; ++j) {
        u128 a = absl::MakeUint128(Mix(j), Mix(j + 50)) & top, b = absl::MakeUint128(Mix(j + 9), Mix(j + 70)) & top;
        ivs.push_back({std::min(a, b), std::max(a, b)});
      }
      auto g = Make(n, ivs, 0);
      if (!g.ok()) { Fail("create-refused", "%s", g.status().ToString().c_str()); continue; }
      std::vector<MicKey> keys;
      std::vector<u128> pts;
      std::vector<std::vector<u128>> alone;
      R().Reset(n);
      const int max = Pick(140, 520);
      for (int i = 0; i < max; ++i) {
        std::vector<u128> out;
        for (int j = 0; j < m; ++j) out.push_back(absl::MakeUint128(Mix(i + j), Mix(i * j + 3)) & top);
        auto k = (*g)->Gen(absl::MakeUint128(Mix(i), Mix(i + 5)) & top, out);
        if (!k.ok()) { Fail("gen-refused", "%s", k.status().ToString().c_str()); break; }
        keys.push_back(i % 3 ? k->first : k->second);
        pts.push_back(absl::MakeUint128(Mix(i + 500), Mix(i + 600)) & top);
        auto e = (*g)->Eval(keys[i], pts[i]);
        if (!e.ok()) { Fail("eval-refused", "%s", e.status().ToString().c_str()); break; }
        alone.push_back(*e);
      }
      if ((int)alone.size() < max) continue;
      for (int from : {0, 3})
        for (int len = 0; from + len <= max; ++len) {
          if (len > 70 && len % 32 > 1 && len % 32 < 31 && len % 50) continue;
          std::vector<u128> want;
          std::vector<const MicKey*> ptr;
          for (int i = 0; i < len; ++i) {
            want.insert(want.end(), alone[from + i].begin(), alone[from + i].end());
            ptr.push_back(&keys[from + i]);
          }
          auto ps = absl::MakeConstSpan(pts).subspan(from, len);
          auto r1 = (*g)->BatchEval(absl::MakeConstSpan(keys).subspan(from, len), ps);
          auto r2 = (*g)->BatchEval(ptr, ps);
          Trans(2);
          Trace(2);
          State(HashFlat(want, len * 4 + from));
          if (!r1.ok() || *r1 != want) Fail("batch-objects", "%d keys %d intervals: %s", len, m, r1.status().ToString().c_str());
          if (!r2.ok() || *r2 != want) Fail("batch-pointers", "%d keys %d intervals: %s", len, m, r2.status().ToString().c_str());
        }
    }
  // Many keys and many intervals: numbers of keys, intervals and products beyond 8 to 16 bits.
  struct Many { int n, m, keys; };
  std::vector<Many> many = {{3, 1, 1500}, {4, 300, 5}, {5, 1100, 2}, {2, 3, 5000}, {4, 40, 130}, {3, 260, 260}, {1, 1, 66000}, {9, 2100, 1}};
  if (Thorough()) many.insert(many.end(), {{8, 300, 300}, {40, 260, 20}, {127, 300, 8}, {3, 3, 66000}, {6, 66000, 1}});
  for (auto& z : many) {
    if (!Case(F("many/n%d/m%d/k%d", z.n, z.m, z.keys))) continue;
    const u128 top = MaskBits(z.n);
    std::vector<Iv> ivs;
    std::vector<u128> out;
    for (int j = 0; j < z.m; ++j) {
      u128 a = absl::MakeUint128(Mix(j), Mix(j + 50)) & top, b = absl::MakeUint128(Mix(j + 9), Mix(j + 70)) & top;
      ivs.push_back({std::min(a, b), std::max(a, b)});
      out.push_back(absl::MakeUint128(Mix(j + 4), Mix(j * 5 + 3)) & top);
    }
    auto g = Make(z.n, ivs, 0);
    if (!g.ok()) { Fail("create-refused", "%s", g.status().ToString().c_str()); continue; }
    R().Reset(z.n);
    const u128 rs[2] = {absl::MakeUint128(Mix(z.m), Mix(z.m + 5)) & top, top};
    std::vector<std::pair<MicKey, MicKey>> keys;
    for (u128 r : rs) {
      auto k = (*g)->Gen(r, out);
      if (!k.ok()) { Fail("gen-refused", "%s", k.status().ToString().c_str()); break; }
      keys.push_back(*k);
    }
    if (keys.size() < 2) continue;
    std::vector<const MicKey*> ptr[2];
    std::vector<u128> pts;
    for (int i = 0; i < z.keys; ++i) {
      for (int p = 0; p < 2; ++p) ptr[p].push_back(p ? &keys[Mix(i) % 2].second : &keys[Mix(i) % 2].first);
      pts.push_back(absl::MakeUint128(Mix(i + 500), Mix(i + 600)) & top);
    }
    auto a = (*g)->BatchEval(ptr[0], pts), b = (*g)->BatchEval(ptr[1], pts);
    Trans(uint64_t(z.keys) * z.m);
    Trace(2);
    if (!a.ok() || !b.ok() || a->size() != size_t(z.keys) * z.m || b->size() != a->size()) {
      Fail("many", "%d keys %d intervals refused or wrong size: %s %s", z.keys, z.m, a.status().ToString().c_str(), b.status().ToString().c_str());
      continue;
    }
    State(HashFlat(*a, HashFlat(*b)));
    bool bad = false;
    for (int i = 0; i < z.keys && !bad; ++i) {
      u128 in = (pts[i] - rs[Mix(i) % 2]) & top;
      for (int j = 0; j < z.m && !bad; ++j) {
        size_t at = size_t(i) * z.m + j;
        u128 want = (out[j] + (in >= ivs[j].p && in <= ivs[j].q ? 1 : 0)) & top;
        if ((((*a)[at] + (*b)[at]) & top) != want) {
          Fail("many", "n=%d key %d of %d interval %d of %d %s x=%s: %s + %s, want %s", z.n, i, z.keys, j, z.m, Show(ivs[j]).c_str(), S(pts[i]).c_str(), S((*a)[at]).c_str(), S((*b)[at]).c_str(), S(want).c_str());
          bad = true;
        }
      }
    }
  }
}
