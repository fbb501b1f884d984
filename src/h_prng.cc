// P16: AES-128-CTR seeded generator. P17: the default random generator.
#include <openssl/aes.h>

#include "absl/numeric/int128.h"
#include "absl/status/statusor.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "vp.h"
#include "vp_rand.h"
using namespace vp;
namespace dp = distributed_point_functions;
using Ctr = dp::Aes128CtrSeededPrng;

namespace {
// Keystream of AES-128 in counter mode, one block at a time.
std::string Keystream(const std::string& seed, const std::string& nonce, size_t len) {
  AES_KEY k;
  AES_set_encrypt_key(reinterpret_cast<const uint8_t*>(seed.data()), 128, &k);
  uint8_t ctr[16], out[16];
  memcpy(ctr, nonce.data(), 16);
  std::string s;
  while (s.size() < len) {
    AES_encrypt(ctr, out, &k);
    s.append(reinterpret_cast<char*>(out), 16);
    for (int i = 15; i >= 0 && ++ctr[i] == 0; --i) {
    }
  }
  s.resize(len);
  return s;
}
std::string Pat(uint64_t x) {
  std::string s;
  for (int i = 0; i < 16; ++i) s += char(Mix(x * 16 + i));
  return s;
}

void CtrMode() {
  std::vector<std::string> seeds = {std::string(16, '\0'), std::string(16, '\xff'), Pat(1)};
  // Counters next to every carry.
  std::vector<std::pair<std::string, std::string>> nonces;
  nonces.push_back({"zero", std::string(16, '\0')});
  nonces.push_back({"pattern", Pat(2)});
  for (int k = 1; k <= 128; ++k)
    for (int below = 1; below <= 2; ++below) {
      if (!Thorough() && k % 8 && k > 3) continue;
      absl::uint128 v = (k == 128 ? absl::uint128(0) : absl::uint128(1) << k) - below;
      std::string s(16, '\0');
      for (int i = 0; i < 16; ++i) s[15 - i] = char(absl::Uint128Low64(v >> (8 * i)));
      nonces.push_back({F("2^%d-%d", k, below), s});
    }
  // All sequences of draws over chosen lengths.
  const std::vector<size_t> lens = {0, 1, 2, 7, 15, 16, 17, 31, 33, 64};
  const int depth = Pick(5, 6);
  for (size_t si = 0; si < seeds.size(); ++si)
    for (auto& [nname, nonce] : nonces) {
      if (!Case(F("seq/s%zu/%s", si, nname.c_str()))) continue;
      std::string want = Keystream(seeds[si], nonce, 64 * 8);
      std::vector<size_t> seq;
      std::function<void()> rec = [&] {
        auto g = Ctr::CreateWithNonce(seeds[si], nonce);
        if (!g.ok()) { Fail("create", "%s", g.status().ToString().c_str()); return; }
        size_t pos = 0;
        for (size_t l : seq) {
          std::string r = (*g)->GetRandomBytes(l);
          Trans();
          if (r != want.substr(pos, l)) {
            std::string d;
            for (size_t x : seq) d += F(" %zu", x);
            Fail("stream", "nonce %s, draws%s: wrong at byte %zu", nname.c_str(), d.c_str(), pos);
          }
          pos += l;
        }
        Trace();
        State(pos);
        if ((int)seq.size() == depth) return;
        for (size_t l : lens) {
          seq.push_back(l);
          rec();
          seq.pop_back();
        }
      };
      rec();
      Sample(F("nonce %s: all sequences of up to %d draws of %zu lengths", nname.c_str(), depth, lens.size()));
    }
  // All compositions of a total.
  for (int total = 0; total <= Pick(13, 17); ++total) {
    if (!Case(F("compositions/%d", total))) continue;
    std::string want = Keystream(seeds[2], nonces[1].second, 16 + total);
    for (uint32_t cut = 0; cut < (1u << std::max(0, total - 1)); ++cut)
      for (size_t first : {0, 5, 12}) {
        auto g = *Ctr::CreateWithNonce(seeds[2], nonces[1].second);
        std::string got = g->GetRandomBytes(first);
        size_t run = 0;
        for (int i = 0; i < total; ++i) {
          ++run;
          if (i + 1 == total || (cut >> i & 1)) {
            got += g->GetRandomBytes(run);
            Trans();
            run = 0;
          }
        }
        Trace();
        State(cut * 3 + first);
        if (got != want.substr(0, total + first)) Fail("stream", "composition %x of %d after %zu", cut, total, first);
      }
  }
  // One draw of every length; two draws meeting at every point.
  for (int base = 0; base <= Pick(640, 1400); base += 32) {
    if (!Case(F("lengths/%d", base))) continue;
    std::string want = Keystream(seeds[2], nonces[0].second, 4000);
    for (int a = base; a < base + 32; ++a) {
      auto g = *Ctr::Create(seeds[2]);
      std::string s = g->GetRandomBytes(a);
      s += g->GetRandomBytes(a % 50);
      Trans(2);
      Trace();
      State(a);
      if (s != want.substr(0, a + a % 50)) Fail("stream", "draws of %d and %d bytes", a, a % 50);
    }
  }
  for (size_t big : {4095, 4096, 4097, 65535, 65536, 65537, 1048576 + 3, 16777216 + 7}) {
    if (!Case(F("big/%zu", big))) continue;
    auto g = *Ctr::CreateWithNonce(seeds[2], nonces[5].second);
    std::string want = Keystream(seeds[2], nonces[5].second, big + 40);
    std::string s = g->GetRandomBytes(3);
    s += g->GetRandomBytes(big);
    s += g->GetRandomBytes(37);
    Trans(3);
    Trace();
    State(big);
    if (s != want) Fail("stream", "draw of %zu bytes", big);
  }
  // Every bit of seed and nonce matters; generators do not share state.
  if (Case("bits")) {
    std::string s0 = Pat(3), n0 = Pat(4);
    for (int i = 0; i < 256; ++i) {
      std::string s = s0, n = n0;
      (i < 128 ? s : n)[i / 8 % 16] ^= 1 << (i % 8);
      auto g = *Ctr::CreateWithNonce(s, n), h = *Ctr::CreateWithNonce(s0, n0);
      std::string a, b;
      for (size_t l : {5, 0, 12, 16, 3}) {
        a += g->GetRandomBytes(l);
        b += h->GetRandomBytes(l);
      }
      Trans(10);
      Trace(2);
      State(i);
      if (a != Keystream(s, n, 36) || b != Keystream(s0, n0, 36)) Fail("bits", "bit %d", i);
    }
  }
  if (Case("create")) {
    // A generator without a nonce starts at counter zero.
    for (auto& s : seeds) {
      auto g = Ctr::Create(s);
      if (!g.ok() || (*g)->GetRandomBytes(40) != Keystream(s, std::string(16, '\0'), 40)) Fail("create", "without nonce");
    }
    for (size_t a = 0; a <= 40; ++a) {
      auto g = Ctr::Create(std::string(a, 'x'));
      if (g.ok() != (a == 16) || (!g.ok() && g.status().code() != absl::StatusCode::kInvalidArgument)) Fail("seed-size", "%zu", a);
      for (size_t b = 0; b <= 40; ++b) {
        auto h = Ctr::CreateWithNonce(std::string(a, 'x'), std::string(b, 'y'));
        Trans();
        State(a * 50 + b);
        if (h.ok() != (a == 16 && b == 16) || (!h.ok() && h.status().code() != absl::StatusCode::kInvalidArgument)) Fail("size", "seed %zu nonce %zu", a, b);
      }
    }
    // A generated seed consists of 16 fresh bytes of the system's random source.
    R().Reset(8);
    R().record = true;
    std::set<std::string> seen;
    for (int i = 0; i < 20; ++i) {
      auto s = Ctr::GenerateSeed();
      if (!s.ok() || s->size() != Ctr::SeedSize() || Ctr::SeedSize() != 16) Fail("generate", "seed %d", i);
      else if (!seen.insert(*s).second || R().log.find(*s) == std::string::npos) Fail("generate", "seed %d is not fresh", i);
    }
  }
}

// ---------------------------------------------------------------- BasicRng
struct Draw {
  int inst, width;
};
// Runs the draws; concatenated value bits, per draw status.
struct RunResult {
  std::vector<std::vector<uint8_t>> values;  // little-endian bytes; empty: failed
  std::vector<bool> source_failed;
  size_t used = 0;
};
RunResult RunDraws(const std::vector<Draw>& ds, const std::string& script, int fail_at) {
  R().Reset(1);
  R().script = script;
  R().record = true;
  R().fail_at = fail_at;
  RunResult r;
  std::vector<std::unique_ptr<dp::BasicRng>> g;
  for (int i = 0; i < 3; ++i) {
    auto x = dp::BasicRng::Create(i == 1 ? "seed" : "");
    if (!x.ok()) { Fail("create", "%s", x.status().ToString().c_str()); return r; }
    g.push_back(std::move(*x));
  }
  for (const Draw& d : ds) {
    int c0 = R().ncalls;
    std::vector<uint8_t> v(d.width / 8);
    bool ok = false;
    dp::SecurePrng& p = *g[d.inst];
    if (d.width == 8) {
      auto x = p.Rand8();
      if ((ok = x.ok())) v[0] = *x;
    } else if (d.width == 64) {
      auto x = p.Rand64();
      if ((ok = x.ok())) memcpy(v.data(), &*x, 8);
    } else {
      auto x = p.Rand128();
      if ((ok = x.ok())) memcpy(v.data(), &*x, 16);
    }
    Trans();
    r.values.push_back(ok ? v : std::vector<uint8_t>());
    r.source_failed.push_back(fail_at >= c0 && fail_at < R().ncalls);
  }
  r.used = R().log.size();
  return r;
}
// Explores one sequence of draws: every source bit flipped, every source call failing.
void Explore(const std::vector<Draw>& ds, const std::string& name, const size_t kScript) {
        std::string script;
        for (size_t i = 0; i < kScript; ++i) script += char(Mix(i * 3 + 1));
        RunResult base = RunDraws(ds, script, -1);
        size_t bits = 0;
        for (size_t i = 0; i < ds.size(); ++i) {
          bits += ds[i].width;
          if ((int)base.values[i].size() * 8 != ds[i].width) Fail("failed", "draw %zu of %s failed", i, name.c_str());
        }
        Trace();
        // Flip every bit of the source: each value bit follows exactly one of them.
        std::vector<int> sources(bits, 0);
        for (size_t b = 0; b < std::min<size_t>(base.used, kScript) * 8; ++b) {
          std::string s = script;
          s[b / 8] ^= 1 << (b % 8);
          RunResult r = RunDraws(ds, s, -1);
          Trace();
          int flipped = 0;
          size_t at = 0;
          for (size_t i = 0; i < ds.size(); ++i)
            for (int k = 0; k < ds[i].width; ++k, ++at)
              if (r.values[i].size() == base.values[i].size() && !r.values[i].empty() &&
                  ((r.values[i][k / 8] ^ base.values[i][k / 8]) >> (k % 8) & 1)) {
                ++flipped;
                ++sources[at];
              }
          if (flipped > 1) Fail("reuse", "source bit %zu decides %d bits of the values of %s", b, flipped, name.c_str());
          State(b * 131 + flipped);
        }
        for (size_t at = 0; at < bits; ++at)
          if (sources[at] != 1) Fail("source", "bit %zu of the values of %s follows %d source bits", at, name.c_str(), sources[at]);
        // The source fails at each call.
        int calls = R().ncalls;
        for (int f = 0; f <= calls; ++f) {
          RunResult r = RunDraws(ds, script, f);
          Trace();
          for (size_t i = 0; i < ds.size(); ++i)
            if (r.values[i].empty() != r.source_failed[i])
              Fail("failure", "source call %d fails: draw %zu of %s %s", f, i, name.c_str(), r.values[i].empty() ? "fails too" : "returns a value");
        }
        Sample(name);
}
void RngMode() {
  const int depth = Pick(5, 6);
  std::vector<Draw> ds;
  std::function<void()> rec = [&] {
    if (!ds.empty()) {
      std::string name;
      for (auto& d : ds) name += F("%d:%d ", d.inst, d.width);
      if (Case("draws/" + name)) Explore(ds, name, 256);
    }
    if ((int)ds.size() == depth) return;
    for (int inst = 0; inst < (ds.empty() ? 1 : 2); ++inst)
      for (int w : {8, 64, 128}) {
        ds.push_back({inst, w});
        rec();
        ds.pop_back();
      }
  };
  rec();
  // Long runs that repeat a short pattern.
  for (int len : {1, 2, 3}) {
    int combos = 1;
    for (int i = 0; i < len; ++i) combos *= 3;
    for (int c = 0; c < combos; ++c) {
      const int ws[] = {8, 64, 128};
      std::vector<Draw> pat, run;
      std::string name;
      for (int i = 0, v = c; i < len; ++i, v /= 3) {
        pat.push_back({0, ws[v % 3]});
        name += F("%d ", ws[v % 3]);
      }
      size_t bytes = 0;
      for (int i = 0; bytes < (size_t)Pick(200, 1100); ++i) {
        run.push_back(pat[i % len]);
        bytes += run.back().width / 8;
      }
      if (Case("run/" + name)) Explore(run, "repeated " + name, 4096);
    }
  }
  if (Case("seed")) {
    auto s = dp::BasicRng::GenerateSeed();
    State(1);
    if (!s.ok() || (int)s->size() != dp::BasicRng::SeedLength()) Fail("seed", "wrong length");
  }
}
}  // namespace
void VpRun() {
  if (Mode("ctr")) CtrMode();
  else RngMode();
}
