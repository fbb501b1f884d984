// P01: single-level point functions. Exhaustive over alpha, evaluation point,
// integer width, beta and root seeds on small domains; boundary alphas and all
// one-bit neighbours on large ones.
#include "types.h"
#include "vp_rand.h"
using namespace vp;

static std::vector<TypeOps> types;

static void CheckPoint(const TypeOps& o, int n, u128 alpha, const Flat& beta, int seed_mode,
                       bool full, const std::vector<std::vector<u128>>& lists, Dpf& dpf) {
  switch (seed_mode) {
    case 0: R().Reset(absl::Uint128Low64(alpha) * 31 + n); break;
    case 1: R().ResetConst(0); break;
    case 2: R().ResetConst(0xff); break;
    case 3: R().ResetScript(std::string(16, '\0') + std::string(16, '\xff')); break;
    case 4: R().ResetScript(std::string(16, '\xff') + std::string(16, '\0')); break;
  }
  auto keys = dpf.GenerateKeys(alpha, o.encode(beta));
  if (!keys.ok()) {
    Fail("keygen-refused", "alpha=%s: %s", S(alpha).c_str(), keys.status().ToString().c_str());
    return;
  }
  auto check = [&](const char* api, absl::Span<const u128> pts, bool all, const absl::StatusOr<Flat>& a,
                   const absl::StatusOr<Flat>& b) {
    if (!a.ok() || !b.ok()) {
      Fail(std::string(api) + "-refused", "alpha=%s: %s %s", S(alpha).c_str(),
           a.status().ToString().c_str(), b.status().ToString().c_str());
      return;
    }
    int64_t want = all ? int64_t{1} << n : pts.size();
    if (o.Size(*a) != want || o.Size(*b) != want) {
      Fail(std::string(api) + "-size", "alpha=%s: got %lld and %lld outputs, want %lld", S(alpha).c_str(),
           (long long)o.Size(*a), (long long)o.Size(*b), (long long)want);
      return;
    }
    for (int64_t i = 0; i < want; ++i) {
      u128 x = all ? u128(i) : pts[i];
      const u128 *pa = &(*a)[i * o.n()], *pb = &(*b)[i * o.n()];
      if (!SumIs(o, pa, pb, x == alpha ? beta.data() : nullptr))
        Fail(std::string(api) + "-sum", "alpha=%s x=%s beta=%s: shares %s + %s, position %lld of %s seeds %d",
             S(alpha).c_str(), S(x).c_str(), Show(beta.data(), o.n()).c_str(), Show(pa, o.n()).c_str(),
             Show(pb, o.n()).c_str(), (long long)i, all ? "full domain" : ShowList(pts).c_str(), seed_mode);
    }
    State(HashFlat(*b, HashFlat(*a, Hash(api))));
    Trans(want);
    Trace(2);
  };
  if (full) {
    absl::StatusOr<Flat> r[2];
    for (int p = 0; p < 2; ++p) {
      auto ctx = dpf.CreateEvaluationContext(p ? keys->second : keys->first);
      if (!ctx.ok()) {
        Fail("context-refused", "%s", ctx.status().ToString().c_str());
        return;
      }
      // Both entry points for a full expansion.
      r[p] = (p ^ (seed_mode & 1)) ? o.until(dpf, 0, {}, *ctx) : o.next(dpf, {}, *ctx);
    }
    check("full", {}, true, r[0], r[1]);
  }
  for (auto& l : lists) {
    auto a = o.at(dpf, keys->first, 0, l), b = o.at(dpf, keys->second, 0, l);
    check("at", l, false, a, b);
  }
}

void VpRun() {
  types = {MakeOps<uint8_t>(), MakeOps<uint16_t>(), MakeOps<uint32_t>(), MakeOps<uint64_t>(), MakeOps<u128>()};
  const int full_n = Pick(10, 14);        // all alpha x all x
  const int edge_n = Pick(18, 23);       // boundary alpha x all x
  for (auto& o : types) {
    // All alphas.
    for (int n = 0; n <= full_n; ++n) {
      auto dpf = Dpf::Create(Param(n, o));
      uint64_t size = uint64_t{1} << n;
      uint64_t chunk = n <= 5 ? size : 32;
      for (uint64_t base = 0; base < size; base += chunk) {
        if (!Case(F("all/%s/n%d/a%llu", o.name.c_str(), n, (unsigned long long)base))) continue;
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        auto betas = Betas(o, n <= 6 ? 5 : 2);
        for (uint64_t a = base; a < base + chunk; ++a) {
          // Point lists: every point in order, reversed, each alone (small n), around alpha repeated.
          std::vector<std::vector<u128>> lists(2);
          for (uint64_t x = 0; x < size; ++x) lists[0].push_back(x);
          lists[1].assign(lists[0].rbegin(), lists[0].rend());
          lists[1].push_back(a);
          lists[1].push_back(a);
          if (n <= 4) for (uint64_t x = 0; x < size; ++x) lists.push_back({x});
          if (n <= 3) {
            for (uint64_t x = 0; x < size; ++x)
              for (uint64_t y = 0; y < size; ++y) {
                lists.push_back({x, y});
                if (n <= 2)
                  for (uint64_t z = 0; z < size; ++z) lists.push_back({x, y, z});
              }
          }
          lists.push_back({});
          for (size_t k = 0; k < betas.size(); ++k)
            for (int s = 0; s < (n <= 6 ? 5 : 1); ++s)
              CheckPoint(o, n, a, betas[k], s, true, (k == 0 && s == 0) || n == 0 ? lists : std::vector<std::vector<u128>>{lists[1]}, **dpf);
        }
        Sample(F("%s domain 2^%d alphas %llu.. all points", o.name.c_str(), n, (unsigned long long)base));
      }
    }
    // Boundary alphas, all points.
    for (int n = full_n + 1; n <= edge_n; ++n) {
      uint64_t top = (uint64_t{1} << n) - 1;
      std::vector<uint64_t> alphas = {0, 1, top, top - 1, top >> 1, (top >> 1) + 1, 0x5555555555555555ull & top,
                                      0xaaaaaaaaaaaaaaaaull & top, (Mix(n) & top)};
      auto dpf = Dpf::Create(Param(n, o));
      for (uint64_t a : alphas) {
        if (!Case(F("edge/%s/n%d/a%llu", o.name.c_str(), n, (unsigned long long)a))) continue;
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        std::vector<u128> around;
        for (int d = -40; d <= 40; ++d)
          if (int64_t(a) + d >= 0 && int64_t(a) + d <= int64_t(top)) around.push_back(a + d);
        CheckPoint(o, n, a, Betas(o, 1)[0], 0, true, {around}, **dpf);
      }
    }
    // Expansions past 2^20 outputs.
    if (&o == &types[0] || &o == &types[4])
      for (int n : Pick(std::vector<int>{20, 21, 22}, std::vector<int>{24, 25})) {
        auto dpf = Dpf::Create(Param(n, o));
        for (u128 a : {u128{Mix(n)} & MaskBits(n), MaskBits(n)}) {
          if (!Case(F("whole/%s/n%d/a%s", o.name.c_str(), n, S(a).c_str()))) continue;
          if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
          CheckPoint(o, n, a, Betas(o, 1)[0], 0, true, {{a, 0, MaskBits(n)}}, **dpf);
        }
      }
    // Huge domains: points that share every possible prefix length with alpha.
    std::vector<int> ns;
    for (int n = Pick(17, 13); n <= 128; ++n) ns.push_back(n);
    const std::set<int> all_alphas = {20, 31, 32, 33, 40, 57, 60, 61, 62, 63, 64, 65, 66, 71, 72, 96, 100, 124, 125, 126, 127, 128};
    for (int n : ns) {
      u128 top = MaskBits(n);
      u128 p5 = absl::MakeUint128(0x5555555555555555ull, 0x5555555555555555ull);
      std::vector<u128> alphas = {0, 1, top, top - 1, top >> 1, (top >> 1) + 1, p5 & top, (p5 << 1) & top,
                                  absl::MakeUint128(Mix(n), Mix(n + 500)) & top};
      if (!Thorough() && !all_alphas.count(n)) alphas.erase(alphas.begin(), alphas.end() - 2);
      auto dpf = Dpf::Create(Param(n, o));
      for (u128 a : alphas) {
        if (!Case(F("huge/%s/n%d/a%s", o.name.c_str(), n, S(a).c_str()))) continue;
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        std::vector<u128> pts = {a};
        for (int b = 0; b < n; ++b) {
          pts.push_back(a ^ (u128{1} << b));               // differ in one bit
          pts.push_back((a ^ (u128{1} << b)) | (MaskBits(b)));  // and everything below set
          pts.push_back((a ^ (u128{1} << b)) & ~MaskBits(b));
        }
        pts.push_back(a);
        for (auto& x : pts) x &= top;
        std::vector<std::vector<u128>> lists = {pts};
        for (size_t len : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65}) 
          if (len <= pts.size()) lists.push_back(std::vector<u128>(pts.end() - len, pts.end()));
        for (auto& beta : Betas(o, 2)) CheckPoint(o, n, a, beta, 0, false, lists, **dpf);
        Sample(F("%s domain 2^%d alpha %s, %zu points sharing each prefix length", o.name.c_str(), n, S(a).c_str(), pts.size()));
      }
    }
  }
}
