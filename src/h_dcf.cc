// P13: distributed comparison functions.
#include "dcf_ops.h"
using namespace vp;
using dp::Tuple;
using dp::XorWrapper;
using M32 = dp::IntModN<uint32_t, 4294967291u>;
using M64 = dp::IntModN<uint64_t, 1000000007ull>;
using M128 = dp::IntModN<u128, (unsigned __int128)(257)>;

namespace {
std::vector<DcfOps> types;

void Seeds(int mode, uint64_t s) {
  if (mode == 1) R().ResetConst(0);
  else if (mode == 2) R().ResetConst(0xff);
  else R().Reset(s);
}

// A function whose value type can be given as a proto. Types other than plain
// integers become known to the library with the first call that names them.
absl::StatusOr<std::unique_ptr<Dcf>> Make(const DcfOps& d, const DcfParameters& p) {
  auto f = Dcf::Create(p);
  if (f.ok()) d.keys(**f, 0, Betas(d.o, 1)[0]).status().IgnoreError();
  return f;
}

std::pair<DcfKey, DcfKey> Keys(const DcfOps& d, Dcf& f, u128 alpha, const Flat& beta, int form, bool* ok) {
  auto k = form ? d.keys(f, alpha, beta) : f.GenerateKeys(alpha, d.o.encode(beta));
  *ok = k.ok();
  if (!k.ok()) {
    Fail("keygen-refused", "alpha=%s beta=%s: %s", S(alpha).c_str(), Show(beta.data(), d.o.n()).c_str(), k.status().ToString().c_str());
    return {};
  }
  return *k;
}
// Evaluates both keys at all points; checks the sums.
void CheckPoints(const DcfOps& d, Dcf& f, const std::pair<DcfKey, DcfKey>& k, u128 alpha, const Flat& beta,
                 const std::vector<u128>& pts, bool single) {
  absl::StatusOr<Flat> r[2];
  for (int p = 0; p < 2; ++p) {
    std::vector<const DcfKey*> ks(pts.size(), p ? &k.second : &k.first);
    r[p] = d.batch_ptr(f, ks, pts);
    if (!r[p].ok() || d.o.Size(*r[p]) != (int64_t)pts.size()) {
      Fail("refused", "alpha=%s party %d: %s", S(alpha).c_str(), p, r[p].status().ToString().c_str());
      return;
    }
    if (single)
      for (size_t i = 0; i < pts.size(); ++i) {
        auto e = d.eval(f, *ks[0], pts[i]);
        Trans();
        if (!e.ok() || !std::equal(e->begin(), e->end(), r[p]->begin() + i * d.o.n()))
          Fail("single", "alpha=%s x=%s: alone %s, in a batch %s", S(alpha).c_str(), S(pts[i]).c_str(),
               e.ok() ? Show(e->data(), d.o.n()).c_str() : e.status().ToString().c_str(), Show(&(*r[p])[i * d.o.n()], d.o.n()).c_str());
      }
  }
  for (size_t i = 0; i < pts.size(); ++i) {
    const u128 *a = &(*r[0])[i * d.o.n()], *b = &(*r[1])[i * d.o.n()];
    if (!SumIs(d.o, a, b, pts[i] < alpha ? beta.data() : nullptr))
      Fail("sum", "alpha=%s x=%s beta=%s: shares %s + %s", S(alpha).c_str(), S(pts[i]).c_str(), Show(beta.data(), d.o.n()).c_str(),
           Show(a, d.o.n()).c_str(), Show(b, d.o.n()).c_str());
    if (!InRange(d.o, a) || !InRange(d.o, b)) Fail("range", "alpha=%s x=%s", S(alpha).c_str(), S(pts[i]).c_str());
  }
  Trans(2 * pts.size());
  Trace(2);
  State(HashFlat(*r[0], HashFlat(*r[1])));
}
}  // namespace

void VpRun() {
  types = {MakeDcf<uint8_t>(), MakeDcf<uint16_t>(), MakeDcf<uint32_t>(), MakeDcf<uint64_t>(), MakeDcf<u128>(),
           MakeDcf<XorWrapper<uint8_t>>(), MakeDcf<XorWrapper<uint64_t>>(), MakeDcf<XorWrapper<u128>>(), MakeDcf<M32>(), MakeDcf<M64>(),
           MakeDcf<M128>(), MakeDcf<Tuple<uint32_t, uint64_t>>(), MakeDcf<Tuple<XorWrapper<uint8_t>, uint16_t>>(),
           MakeDcf<Tuple<M32, M32>>(), MakeDcf<Tuple<uint8_t, Tuple<XorWrapper<uint64_t>, uint8_t>>>(), MakeDcf<Tuple<M64, u128>>(),
           MakeDcf<Tuple<uint64_t, uint64_t, uint64_t>>()};
  const int small = Pick(5, 6), full = Pick(8, 10);
  for (auto& d : types) {
    auto betas = Betas(d.o, 6);
    // All thresholds and points.
    for (int n = 1; n <= full; ++n) {
      uint64_t size = uint64_t{1} << n, chunk = n <= 5 ? size : 32;
      auto f = Make(d, DcfParam(n, d.o));
      std::vector<u128> pts;
      for (uint64_t x = 0; x < size; ++x) pts.push_back(x);
      for (uint64_t base = 0; base < size; base += chunk) {
        if (!Case(F("all/%s/n%d/a%llu", d.o.name.c_str(), n, (unsigned long long)base))) continue;
        if (!f.ok()) { Fail("create-refused", "%s", f.status().ToString().c_str()); continue; }
        for (uint64_t a = base; a < base + chunk; ++a)
          for (size_t b = 0; b < (n <= small ? betas.size() : 1); ++b)
            for (int s = 0; s < (n <= 3 ? 3 : 1); ++s) {
              Seeds(s, a * 7 + b);
              bool ok;
              auto k = Keys(d, **f, a, betas[b], (a + b) % 2, &ok);
              if (ok) CheckPoints(d, **f, k, a, betas[b], pts, n <= small && b < 2);
            }
        if (base == 0) Sample(F("%s n=%d all alpha, all x", d.o.name.c_str(), n));
      }
      // Every value of one-byte types.
      if (n <= 3 && d.o.n() == 1 && d.o.leaves[0].bits == 8 && Case(F("byte/%s/n%d", d.o.name.c_str(), n)) && f.ok())
        for (u128 v = 0; v < 256; ++v)
          for (uint64_t a = 0; a < size; ++a) {
            Seeds(0, a);
            bool ok;
            auto k = Keys(d, **f, a, {v}, 0, &ok);
            if (ok) CheckPoints(d, **f, k, a, {v}, pts, false);
          }
    }
    // Large domains: points sharing every prefix length with the threshold.
    bool mod = false;
    for (auto& l : d.o.leaves) mod |= l.kind == kMod;
    std::vector<int> ns = {9, 12, 16, 20, 24, 31, 32, 33, 40, 50, 60, 61, 62, 63, 64, 65, 66, 80, 96, 100, 126, 127, 128};
    if (Thorough()) {
      ns.clear();
      for (int n = 9; n <= 128; ++n) ns.push_back(n);
    }
    for (int n : ns) {
      if (!Case(F("huge/%s/n%d", d.o.name.c_str(), n))) continue;
      auto p = DcfParam(n, d.o);
      if (mod && n > 9) p.mutable_parameters()->set_security_parameter(40);
      auto f = Make(d, p);
      if (!f.ok()) { Fail("create-refused", "%s", f.status().ToString().c_str()); continue; }
      u128 top = MaskBits(n), p5 = absl::MakeUint128(0x5555555555555555ull, 0x5555555555555555ull);
      for (u128 a : {u128{0}, u128{1}, u128{2}, top, top - 1, top >> 1, (top >> 1) + 1, p5 & top, (p5 << 1) & top,
                     absl::MakeUint128(Mix(n), Mix(n + 500)) & top}) {
        std::vector<u128> pts = {a, a + 1 > a ? a + 1 : a, a ? a - 1 : a, 0, top};
        for (int b = 0; b < n; ++b) {
          pts.push_back(a ^ (u128{1} << b));
          pts.push_back((a ^ (u128{1} << b)) | MaskBits(b));
          pts.push_back((a ^ (u128{1} << b)) & ~MaskBits(b));
        }
        for (auto& x : pts) x &= top;
        Seeds(0, n);
        bool ok;
        auto k = Keys(d, **f, a, betas[0], n % 2, &ok);
        if (ok) CheckPoints(d, **f, k, a, betas[0], pts, a == top >> 1);
      }
      Sample(F("%s n=%d boundary alphas, points sharing every prefix", d.o.name.c_str(), n));
    }
    // Batches of different keys: every way to pass them gives what each key gives alone.
    for (int n : {1, 2, 4, 7, 33, 128}) [&] {
      if (n > 9 && mod) return;
      auto f = Make(d, DcfParam(n, d.o));
      if (!Case(F("batch/%s/n%d", d.o.name.c_str(), n)) || !f.ok()) return;
      const int max = Pick(140, 1100);
      std::vector<DcfKey> keys;
      std::vector<u128> pts;
      std::vector<Flat> alone;
      Seeds(0, 9);
      u128 top = MaskBits(n);
      for (int i = 0; i < max; ++i) {
        bool ok;
        u128 a = absl::MakeUint128(Mix(i), Mix(i + 99)) & top;
        auto k = Keys(d, **f, a, betas[i % betas.size()], 0, &ok);
        if (!ok) return;
        keys.push_back(i % 3 ? k.first : k.second);
        pts.push_back(i % 4 == 0 ? a : i % 4 == 1 ? a ^ 1 : absl::MakeUint128(Mix(i + 7), Mix(i + 8)) & top);
        auto e = d.eval(**f, keys[i], pts[i]);
        if (!e.ok()) { Fail("refused", "%s", e.status().ToString().c_str()); return; }
        alone.push_back(*e);
      }
      for (int from : {0, 1, 5})
        for (int m = 0; from + m <= max; ++m) {
          if (m > 140 && m % 64 > 1 && m % 64 < 63 && m % 100) continue;
          Flat want;
          std::vector<const DcfKey*> ptr;
          for (int i = 0; i < m; ++i) {
            want.insert(want.end(), alone[from + i].begin(), alone[from + i].end());
            ptr.push_back(&keys[from + i]);
          }
          auto ps = absl::MakeConstSpan(pts).subspan(from, m);
          auto r1 = d.batch_obj(**f, absl::MakeConstSpan(keys).subspan(from, m), ps);
          auto r2 = d.batch_ptr(**f, ptr, ps);
          auto r3 = d.batch_out(**f, ptr, ps, m);
          Trans(3);
          Trace(3);
          State(HashFlat(want, m * 10 + from));
          if (!r1.ok() || *r1 != want) Fail("batch-objects", "%d keys: %s", m, r1.status().ToString().c_str());
          if (!r2.ok() || *r2 != want) Fail("batch-pointers", "%d keys: %s", m, r2.status().ToString().c_str());
          if (!r3.ok() || *r3 != want) Fail("batch-output", "%d keys: %s", m, r3.status().ToString().c_str());
          // The same keys in another order.
          std::vector<const DcfKey*> rp(ptr.rbegin(), ptr.rend());
          std::vector<u128> rx(ps.rbegin(), ps.rend());
          auto r4 = d.batch_ptr(**f, rp, rx);
          Flat rw;
          for (int i = m - 1; i >= 0; --i) rw.insert(rw.end(), alone[from + i].begin(), alone[from + i].end());
          if (!r4.ok() || *r4 != rw) Fail("batch-order", "%d keys reversed: %s", m, r4.status().ToString().c_str());
        }
      Sample(F("%s n=%d batches of 0..%d keys", d.o.name.c_str(), n, max));
    }();
    // Batches whose sizes pass 12 to 16 bits: different keys, by reference.
    for (int n : {2, 7, 33}) [&] {
      if (n == 33 && !Thorough()) return;
      if (d.o.n() > 1) return;
      auto f = Make(d, DcfParam(n, d.o));
      for (int m : {2049, 4097, 8200, 32769, 65537, 70003}) {
        if (m > 10000 && (n > 2 || mod) && !Thorough()) continue;
        if (!Case(F("large-batch/%s/n%d/%d", d.o.name.c_str(), n, m)) || !f.ok()) continue;
        std::vector<DcfKey> keys;
        std::vector<std::vector<Flat>> alone;  // [key][point]
        std::vector<u128> xs;
        Seeds(0, m);
        const u128 top = MaskBits(n);
        for (int j = 0; j < 4; ++j) xs.push_back(j == 0 ? u128{0} : j == 1 ? top : absl::MakeUint128(Mix(j), Mix(j + 1)) & top);
        for (int i = 0; i < 37; ++i) {
          bool ok;
          auto k = Keys(d, **f, absl::MakeUint128(Mix(i), Mix(i + 99)) & top, betas[i % betas.size()], 0, &ok);
          if (!ok) return;
          keys.push_back(i % 3 ? k.first : k.second);
          alone.emplace_back();
          for (u128 x : xs) {
            auto e = d.eval(**f, keys[i], x);
            if (!e.ok()) { Fail("refused", "%s", e.status().ToString().c_str()); return; }
            alone.back().push_back(*e);
          }
        }
        std::vector<const DcfKey*> ptr;
        std::vector<u128> pts;
        Flat want;
        for (int i = 0; i < m; ++i) {
          int a = Mix(i + m) % 37, b = Mix(i * 3 + 1) % 4;
          ptr.push_back(&keys[a]);
          pts.push_back(xs[b]);
          want.insert(want.end(), alone[a][b].begin(), alone[a][b].end());
        }
        auto r = d.batch_ptr(**f, ptr, pts);
        Trans(m);
        Trace();
        State(HashFlat(want, m));
        if (!r.ok() || *r != want) Fail("large-batch", "%d keys: %s", m, r.status().ToString().c_str());
      }
    }();
  }
}
