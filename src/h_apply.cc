// P04: EvaluateAndApply. Exhaustive over hierarchies, batch sizes, stop levels
// and shifts; all (alpha, point) pairs on small domains.
#include "hier.h"
#include "lookalike.h"
using namespace vp;
static std::vector<TypeOps> T;

static void Run(const Hier& h, Dpf& dpf, const std::vector<DpfKey>& pool, const std::vector<u128>& points,
                const std::vector<int>& which, int shift, int stop_level, int how) {
  size_t n = which.size();
  std::vector<const DpfKey*> ptrs;
  std::vector<DpfKey> objs;
  std::vector<u128> pts;
  for (size_t i = 0; i < n; ++i) {
    ptrs.push_back(&pool[which[i]]);
    if (how == 1) objs.push_back(pool[which[i]]);
    u128 junk = absl::MakeUint128(Mix(i), Mix(i + 99)) & MaskBits(shift);
    pts.push_back(Shl(points[i], shift) | junk);
  }
  std::vector<Flat> got;
  auto cb = [&](Flat f) {
    got.push_back(std::move(f));
    return (int)got.size() - 1 != stop_level;
  };
  const TypeOps& o = *h.t[0];
  absl::Status s = how == 1 ? o.apply_obj(dpf, objs, pts, cb, shift) : o.apply(dpf, ptrs, pts, cb, shift);
  Trace();
  std::string at = F("n=%zu shift=%d stop=%d points %s", n, shift, stop_level, ShowList(points).c_str());
  if (!s.ok()) { Fail("refused", "%s: %s", at.c_str(), s.ToString().c_str()); return; }
  if (n == 0 && got.empty()) { State(1); return; }  // an empty batch has nothing to evaluate
  int want = stop_level >= 0 ? stop_level + 1 : h.size();
  if ((int)got.size() != want) { Fail("levels", "%s: callback ran %zu times, want %d", at.c_str(), got.size(), want); return; }
  uint64_t hash = 0;
  for (int lev = 0; lev < want; ++lev) {
    if (o.Size(got[lev]) != (int64_t)n) { Fail("size", "%s: level %d has %lld values", at.c_str(), lev, (long long)o.Size(got[lev])); return; }
    for (size_t i = 0; i < n; ++i) {
      auto ref = o.at(dpf, pool[which[i]], lev, {Shr(points[i], h.last() - h.d[lev])});
      if (!ref.ok()) { Fail("at-refused", "%s: %s", at.c_str(), ref.status().ToString().c_str()); return; }
      for (int k = 0; k < o.n(); ++k)
        if ((*ref)[k] != got[lev][i * o.n() + k]) {
          Fail("share", "%s: level %d key %zu (pool %d): %s, alone %s", at.c_str(), lev, i, which[i],
               Show(&got[lev][i * o.n()], o.n()).c_str(), Show(ref->data(), o.n()).c_str());
          return;
        }
    }
    hash = HashFlat(got[lev], hash);
    Trans(n);
  }
  State(hash);
}

void VpRun() {
  T = {MakeOps<uint8_t>(), MakeOps<uint16_t>(), MakeOps<uint32_t>(), MakeOps<uint64_t>(), MakeOps<u128>(),
       MakeOps<dp::Tuple<uint32_t, uint64_t>>(), MakeOps<dp::IntModN<uint32_t, 4294967291u>>(),
       MakeOps<dp::XorWrapper<uint16_t>>(), MakeOps<dp::Tuple<u128, u128, uint8_t>>()};
  struct Cfg { std::vector<int> d; };
  std::vector<std::vector<int>> shapes = IncreasingSeqs(0, 4, 1, 3);
  for (auto v : std::vector<std::vector<int>>{{0, 1, 2, 3, 4}, {3, 6, 9}, {6, 7, 8, 9}, {7}, {1, 8}, {5, 10, 20}, {20}, {31, 33}, {60, 64}, {63}, {64},
                                              {65}, {1, 64, 127}, {127}, {128}, {1, 128}, {0, 128}, {64, 128}, {0, 7, 127, 128}, {120, 124}, {100}})
    shapes.push_back(v);
  {
    std::vector<int> all;
    for (int i = 1; i <= 128; ++i) all.push_back(i);
    shapes.push_back(all);
  }
  std::vector<size_t> sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129};
  const std::vector<size_t> large = {191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048};
  for (auto& o : T)
    for (auto& d : shapes) {
      Hier h;
      h.d = d;
      h.t.assign(d.size(), &o);
      int last = d.back();
      bool small = last <= Pick(3, 4);
      std::vector<int> shifts = {0, 1, 7};
      for (int s : {8, 63, 64, 65, 128 - last}) shifts.push_back(s);
      std::set<int> uniq;
      for (int shift : shifts) {
        if (shift + last > 128 || shift >= 128 || shift < 0 || !uniq.insert(shift).second) continue;
        std::string dn = d.size() > 8 ? "1..128" : "";
        if (dn.empty()) for (int x : d) dn += F("%d.", x);
        if (!Case(F("apply/%s/%s/s%d", o.name.c_str(), dn.c_str(), shift))) continue;
        auto dpf = MakeDpf(h);
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        R().Reset(Hash(o.name) + last + shift);
        // Key pool: boundary and pattern alphas, both parties.
        std::vector<u128> alphas;
        if (small) for (u128 a = 0; a < Shl(1, last); ++a) alphas.push_back(a);
        else
          for (int k = 0; k < 6; ++k)
            alphas.push_back((k == 0 ? u128{0} : k == 1 ? ~u128{0} : absl::MakeUint128(Mix(k), Mix(k + 31))) & MaskBits(last));
        std::vector<DpfKey> pool;
        for (u128 a : alphas) {
          auto k = HierKeys(h, **dpf, a, HierBetas(h, 0));
          if (!k.ok()) { Fail("keygen-refused", "%s", k.status().ToString().c_str()); break; }
          pool.push_back(k->first);
          pool.push_back(k->second);
        }
        if (pool.size() != 2 * alphas.size()) continue;
        if (small) {
          // Every key at every point, in one batch; and every ordered pair as a batch of two.
          std::vector<int> w;
          std::vector<u128> pts;
          for (size_t k = 0; k < pool.size(); ++k)
            for (u128 x = 0; x < Shl(1, last); ++x) { w.push_back(k); pts.push_back(x); }
          for (int stop = -1; stop < h.size(); ++stop) Run(h, **dpf, pool, pts, w, shift, stop, stop & 1);
          if (last <= 2)
            for (size_t i = 0; i < w.size(); ++i)
              for (size_t j = 0; j < w.size(); ++j) Run(h, **dpf, pool, {pts[i], pts[j]}, {w[i], w[j]}, shift, -1, 0);
        }
        std::vector<size_t> batches = sizes;
        if (shift <= 1 && (last == 3 || last == 33 || last == 64) && (h.size() <= 3)) batches.insert(batches.end(), large.begin(), large.end());
        // counts beyond 8- and 16-bit indices
        if (shift <= 1 && last == 3 && h.size() <= 2) batches.insert(batches.end(), {4095, 4097, 8193});
        if (shift == 0 && last == 3 && h.size() == 2 && d[0] == 1) batches.insert(batches.end(), {32769, 65535, 65536, 65537, 70001});
        if (shift == 0 && last == 3 && h.size() == 1 && o.n() == 1 && vp::Thorough()) batches.insert(batches.end(), {1000003});
        for (size_t n : batches) {
          std::vector<int> w;
          std::vector<u128> pts;
          for (size_t i = 0; i < n; ++i) {
            w.push_back(Mix(i + n) % pool.size());
            u128 a = alphas[w.back() / 2];
            // on the path, leaving it at some level, or anywhere
            int b = last ? int(Mix(i * 3 + n) % last) : 0;
            u128 x = i % 3 == 0 ? a : i % 3 == 1 ? a ^ Shl(1, b) : absl::MakeUint128(Mix(i), Mix(i + 5 + n));
            pts.push_back(x & MaskBits(last));
          }
          int maxstop = h.size() <= 5 ? h.size() : 1;
          for (int stop = -1; stop < (n <= 17 || n == 33 ? maxstop : 0); ++stop) Run(h, **dpf, pool, pts, w, shift, stop, n & 1);
        }
        // A key next to each that differs from it in one part only.
        if (shift == 0 && pool.size() > 2)
          for (auto& k : Lookalikes(pool[0], pool[2]))
            for (auto w : std::vector<std::vector<int>>{{0, 1}, {1, 0}, {0, 1, 0}, {1, 1, 0, 0, 1}, {2, 1, 0, 1, 2, 2, 0, 0, 1}}) {
              std::vector<u128> pts;
              for (size_t i = 0; i < w.size(); ++i) pts.push_back(alphas[0] ^ (i / 4 & MaskBits(last)));
              Run(h, **dpf, {pool[0], k, pool[2]}, pts, w, shift, -1, w.size() & 1);
            }
        // Mismatched sizes are refused without a call.
        if (shift == 0) {
          int calls = 0;
          auto cb = [&](Flat) { ++calls; return true; };
          std::vector<const DpfKey*> two = {&pool[0], &pool[1]};
          for (size_t np : {0, 1, 3, 5}) {
            std::vector<u128> pts(np, 0);
            auto s = o.apply(**dpf, two, pts, cb, 0);
            Trace();
            if (s.ok() || calls) Fail("mismatch-accepted", "2 keys, %zu points: %s, %d calls", np, s.ToString().c_str(), calls);
          }
          // A malformed key anywhere in the batch: refused before any call.
          for (size_t n : {1, 2, 5})
            for (size_t bad = 0; bad < n; ++bad)
              for (int how = 0; how < 2; ++how) {
                DpfKey k = pool[0];
                if (how == 0) k.clear_seed(); else k.clear_last_level_value_correction();
                std::vector<const DpfKey*> ks(n, &pool[1]);
                ks[bad] = &k;
                std::vector<u128> pts(n, 0);
                auto s = o.apply(**dpf, ks, pts, cb, 0);
                Trace();
                if (s.ok() || calls) Fail("bad-key-accepted", "batch %zu, bad key at %zu: %s, %d calls", n, bad, s.ToString().c_str(), calls);
              }
        }
        Sample(F("%s hierarchy %s shift %d", o.name.c_str(), dn.c_str(), shift));
      }
    }
}
