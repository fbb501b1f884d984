// P11: EvaluateSeeds on every SIMD target, batch shape and buffer placement
//      against a scalar walk with the reference hash.
// P12: Aes128FixedKeyHash against AES through libcrypto's single-block API.
#include "dpf/internal/evaluate_prg_hwy.h"

#include "dpf/aes_128_fixed_key_hash.h"
#include "guard.h"
#include "hwy_targets.h"
#include "ref_dpf.h"
#include "vp.h"

namespace dpf = distributed_point_functions;
using dpf::Aes128FixedKeyHash;
using vp::F;
using vp::u128;

namespace {

struct Keys {
  u128 l, r;
};
std::vector<Keys> KeyPairs() {
  u128 L = absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL);
  u128 R = absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL);
  std::vector<Keys> k = {{L, R}, {R, L}, {0, 1}, {~u128{0}, u128{1} << 127}};
  return k;
}

u128 Rnd(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  uint64_t h = vp::Mix(a * 0x9e37 + vp::Mix(b + vp::Mix(c)));
  return absl::MakeUint128(vp::Mix(h + 1), vp::Mix(h + 2));
}

struct Shape {
  int64_t n = 1;
  int levels = 1;
  bool per_seed = false;
  int rs = 0;
  int pattern = 0;   // how seeds, bits and correction words are chosen
  bool inplace = false;
  // residue modulo 256 of seeds_in, paths, correction_seeds, seeds_out
  int off[4] = {0, 0, 0, 0};
};

struct Bench {
  vp::Guarded in, paths, cw, out, cin, cl, cr, cout;
  size_t max_n, max_cw;
  Bench(size_t n, size_t ncw)
      : in(n * 16 + 512), paths(n * 16 + 512), cw(ncw * 16 + 512), out(n * 16 + 512),
        cin(n), cl(ncw), cr(ncw), cout(n), max_n(n), max_cw(ncw) {}
};
Bench& TheBench() {
  static Bench b(4200, 4200 * 8);
  return b;
}

u128 PatSeed(int pat, int64_t i) {
  switch (pat) {
    case 0: return Rnd(1, i) & ~u128{1};
    case 1: return Rnd(2, i);                      // lowest bit may be set
    case 2: return i % 2 ? ~u128{0} : u128{0};
    default: return u128{1} << (i % 128);
  }
}
u128 PatPath(int pat, int64_t i) {
  switch (pat) {
    case 0: return Rnd(3, i);
    case 1: return i % 2 ? ~u128{0} : u128{0};
    case 2: return u128{1} << (i * 5 % 128);
    default: return ~(u128{1} << (i % 128));
  }
}
bool PatBit(int pat, int which, int64_t i) {
  switch (pat) {
    case 0: return vp::Mix(which * 1000003 + i) & 1;
    case 1: return true;
    case 2: return (i + which) % 2;
    default: return i % 3 == which % 3;
  }
}
u128 PatCw(int pat, int64_t i) {
  switch (pat) {
    case 0: return Rnd(4, i) & ~u128{1};
    case 1: return ~u128{0};
    case 2: return Rnd(5, i);
    default: return u128{1} << (i % 128);
  }
}

struct Refs {
  vp::RefHash l, r;
};

// Runs one shape and compares. `nohwy` drives the portable entry point.
void RunShape(const Shape& s, const Refs& ref, const Aes128FixedKeyHash& pl,
              const Aes128FixedKeyHash& pr, bool nohwy,
              const std::function<void(u128*, bool*, u128*, u128*, bool*, bool*)>& fill = nullptr) {
  Bench& b = TheBench();
  const int64_t n = s.n;
  const int64_t ncw = s.per_seed ? n * s.levels : s.levels;
  if (static_cast<size_t>(n) > b.max_n || static_cast<size_t>(ncw) > b.max_cw) abort();
  auto* in = reinterpret_cast<u128*>(b.in.At(n * 16, s.off[0]));
  auto* paths = reinterpret_cast<u128*>(b.paths.At(n * 16, s.off[1]));
  auto* cw = reinterpret_cast<u128*>(b.cw.At(ncw * 16, s.off[2]));
  auto* out = s.inplace ? in : reinterpret_cast<u128*>(b.out.At(n * 16, s.off[3]));
  auto* cin = reinterpret_cast<bool*>(b.cin.End(n));
  auto* cl = reinterpret_cast<bool*>(b.cl.End(ncw));
  auto* cr = reinterpret_cast<bool*>(b.cr.End(ncw));
  auto* cout = s.inplace ? cin : reinterpret_cast<bool*>(b.cout.End(n));
  // Canaries before and after the outputs.
  uint8_t* o8 = reinterpret_cast<uint8_t*>(out);
  size_t pre = std::min<size_t>(160, o8 - (s.inplace ? b.in : b.out).begin());
  size_t post = std::min<size_t>(160, (s.inplace ? b.in : b.out).end() - (o8 + n * 16));
  memset(o8 - pre, 0xc5, pre);
  memset(o8 + n * 16, 0xc5, post);
  memset(reinterpret_cast<uint8_t*>(cout) - 64, 0xc5, 64);
  if (!s.inplace) {
    memset(o8, 0x77, n * 16);
    memset(cout, 0, n);
  }
  if (fill) {
    fill(in, cin, paths, cw, cl, cr);
  } else {
    for (int64_t i = 0; i < n; ++i) {
      in[i] = PatSeed(s.pattern, i);
      paths[i] = PatPath(s.pattern, i);
      cin[i] = PatBit(s.pattern, 0, i);
    }
    for (int64_t i = 0; i < ncw; ++i) {
      cw[i] = PatCw(s.pattern, i);
      cl[i] = PatBit(s.pattern, 1, i);
      cr[i] = PatBit(s.pattern, 2, i);
    }
  }
  static std::vector<u128> win, wout, wpaths;
  static std::vector<uint8_t> wc, wcin;
  win.assign(in, in + n);
  wpaths.assign(paths, paths + n);
  wcin.assign(cin, cin + n);
  wout.resize(n);
  wc.resize(n);
  for (int64_t i = 0; i < n; ++i) {
    u128 x = in[i];
    bool c = cin[i];
    for (int j = 0; j < s.levels; ++j) {
      int idx = s.levels - j - 1 + s.rs;
      bool right = idx < 128 && (paths[i] >> idx & 1) != 0;
      int64_t k = s.per_seed ? j * n + i : j;
      u128 y = right ? ref.r(x) : ref.l(x);
      if (c) y ^= cw[k];
      bool nc = (y & 1) != 0;
      if (c && (right ? cr[k] : cl[k])) nc = !nc;
      x = y & ~u128{1};
      c = nc;
    }
    wout[i] = x;
    wc[i] = c;
  }
  uint64_t hcw = vp::Hash(cw, ncw * 16), hcl = vp::Hash(cl, ncw), hcr = vp::Hash(cr, ncw);
  auto call = [&] {
    return nohwy ? dpf::dpf_internal::EvaluateSeedsNoHwy(n, s.levels, ncw, in, cin, paths, s.rs, cw, cl,
                                                         cr, pl, pr, out, cout)
                 : dpf::dpf_internal::EvaluateSeeds(n, s.levels, ncw, in, cin, paths, s.rs, cw, cl, cr,
                                                    pl, pr, out, cout);
  };
  absl::Status st = call();
  vp::Trace();
  vp::Trans(n * s.levels);
  std::string d;
  if (!st.ok() || vp::W().key.find("replay") != std::string::npos)
    d = "";
  auto desc = [&] {
    return F("n=%lld levels=%d per_seed=%d rightshift=%d pattern=%d inplace=%d offsets=%d/%d/%d/%d",
             (long long)n, s.levels, s.per_seed, s.rs, s.pattern, s.inplace, s.off[0], s.off[1], s.off[2], s.off[3]);
  };
  if (!st.ok()) {
    vp::Fail("error", "%s: %s", desc().c_str(), st.ToString().c_str());
    return;
  }
  if (s.levels > 0) {
    for (int64_t i = 0; i < n; ++i) {
      if (out[i] != wout[i]) {
        vp::Fail("seed", "%s: seed %lld is wrong", desc().c_str(), (long long)i);
        break;
      }
      if (*reinterpret_cast<uint8_t*>(&cout[i]) != wc[i]) {
        vp::Fail("control", "%s: control bit %lld is wrong", desc().c_str(), (long long)i);
        break;
      }
    }
  }
  for (size_t i = 0; i < pre; ++i)
    if (o8[-1 - static_cast<ptrdiff_t>(i)] != 0xc5) vp::Fail("stray-write", "%s: write before seeds_out", desc().c_str());
  for (size_t i = 0; i < post; ++i)
    if (o8[n * 16 + i] != 0xc5) vp::Fail("stray-write", "%s: write after seeds_out", desc().c_str());
  for (int i = 1; i <= 64; ++i)
    if (reinterpret_cast<uint8_t*>(cout)[-i] != 0xc5) vp::Fail("stray-write", "%s: write before control_bits_out", desc().c_str());
  if (!s.inplace && (memcmp(win.data(), in, n * 16) || memcmp(wcin.data(), cin, n)))
    vp::Fail("input-changed", "%s: input overwritten", desc().c_str());
  if (memcmp(wpaths.data(), paths, n * 16) || hcw != vp::Hash(cw, ncw * 16) || hcl != vp::Hash(cl, ncw) ||
      hcr != vp::Hash(cr, ncw))
    vp::Fail("input-changed", "%s: paths or corrections overwritten", desc().c_str());
  vp::State(vp::Hash(out, n * 16, vp::Hash(cout, n, n * 1000 + s.levels)));
}

void Seeds() {
  auto targets = vp::HwyTargets();
  targets.push_back({0, "portable"});
  auto pairs = KeyPairs();
  for (auto& t : targets) {
    bool nohwy = t.bit == 0;
    auto select = [&] { if (!nohwy) vp::UseTarget(t); };
    auto with = [&](const Keys& k, const std::function<void(const Refs&, const Aes128FixedKeyHash&, const Aes128FixedKeyHash&)>& f) {
      select();
      Refs ref{vp::RefHash(k.l), vp::RefHash(k.r)};
      auto pl = Aes128FixedKeyHash::Create(k.l), pr = Aes128FixedKeyHash::Create(k.r);
      if (!pl.ok() || !pr.ok()) {
        vp::Fail("create", "Aes128FixedKeyHash::Create failed");
        return;
      }
      f(ref, *pl, *pr);
    };
    // Every assignment of path, control and correction bits for few seeds.
    for (int n = 1; n <= 3; ++n) {
      for (int levels = 1; levels <= 2; ++levels) {
        for (int per = 0; per <= (n > 1); ++per) {
          int ncw = per ? n * levels : levels;
          int bits = n + n * levels + 2 * ncw;
          if (bits > vp::Pick(14, 21)) continue;
          for (int hi = 0; hi < 4; ++hi) {
            if (!vp::Case(F("bits/%s/n%d/l%d/p%d/%d", t.name.c_str(), n, levels, per, hi))) continue;
            with(pairs[0], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
              for (uint64_t m = (uint64_t)hi << (bits - 2); m < (uint64_t)(hi + 1) << (bits - 2); ++m) {
                Shape s;
                s.n = n;
                s.levels = levels;
                s.per_seed = per;
                RunShape(s, ref, pl, pr, nohwy, [&](u128* in, bool* cin, u128* paths, u128* cw, bool* cl, bool* cr) {
                  uint64_t v = m;
                  auto bit = [&] { bool x = v & 1; v >>= 1; return x; };
                  for (int i = 0; i < n; ++i) {
                    in[i] = Rnd(7, i) & ~u128{1};
                    cin[i] = bit();
                    paths[i] = Rnd(8, i) << levels;
                    for (int j = 0; j < levels; ++j) paths[i] |= u128{bit()} << j;
                  }
                  for (int i = 0; i < ncw; ++i) {
                    cw[i] = Rnd(9, i);
                    cl[i] = bit();
                    cr[i] = bit();
                  }
                });
              }
            });
          }
        }
      }
    }
    // Every batch size, with every shape around it.
    for (int n = 0; n <= vp::Pick(140, 300); ++n) {
      if (!vp::Case(F("size/%s/n%d", t.name.c_str(), n))) continue;
      with(pairs[0], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
        for (int levels : {1, 2, 3, 7})
          for (int per = 0; per <= 1; ++per)
            for (int pat = 0; pat < 4; ++pat) {
              Shape s;
              s.n = n;
              s.levels = levels;
              s.per_seed = per;
              s.pattern = pat;
              s.inplace = (pat + levels) % 2;
              s.rs = pat == 3 ? 3 : 0;
              RunShape(s, ref, pl, pr, nohwy);
              if (vp::Thorough() || n < 40) {
                s.inplace = !s.inplace;
                for (int rs : {1, 5, 64, 127, 128}) {
                  s.rs = rs;
                  RunShape(s, ref, pl, pr, nohwy);
                }
              }
            }
      });
    }
    // Large batches around powers of two.
    for (int n : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}) {
      if (!vp::Case(F("large/%s/n%d", t.name.c_str(), n))) continue;
      with(pairs[0], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
        for (int levels : {1, 2, 7})
          for (int per = 0; per <= 1; ++per)
            for (int pat = 0; pat < 4; ++pat) {
              Shape s;
              s.n = n;
              s.levels = levels;
              s.per_seed = per;
              s.pattern = pat;
              s.inplace = pat % 2;
              RunShape(s, ref, pl, pr, nohwy);
            }
      });
    }
    // Deep walks: every single bit of the path decides exactly its own level.
    for (int n : {1, 2, 3, 4, 5, 8, 13, 17, 33}) {
      if (!vp::Case(F("deep/%s/n%d", t.name.c_str(), n))) continue;
      with(pairs[0], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
        for (int levels : {8, 31, 63, 64, 65, 127, 128})
          for (int rs : {0, 1, 2, 63, 64, 65, 127, 128})
            for (int k = 0; k < vp::Pick(16, 64); ++k) {
              Shape s;
              s.n = n;
              s.levels = levels;
              s.rs = rs;
              RunShape(s, ref, pl, pr, nohwy, [&](u128* in, bool* cin, u128* paths, u128* cw, bool* cl, bool* cr) {
                for (int i = 0; i < n; ++i) {
                  in[i] = Rnd(11, i) & ~u128{1};
                  int b = (k * vp::Pick(8, 2) + i * 3) % 128;
                  paths[i] = (k & 1) ? ~(u128{1} << b) : u128{1} << b;
                  cin[i] = (i ^ k) & 1;
                }
                for (int i = 0; i < levels; ++i) {
                  cw[i] = Rnd(12, i, k);
                  cl[i] = (i ^ (k >> 1)) & 1;
                  cr[i] = ((i >> 1) ^ (k >> 2)) & 1;
                }
              });
            }
      });
    }
    // Buffer placement: every combination of aligned and misaligned arrays.
    for (int n : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65}) {
      if (!vp::Case(F("align/%s/n%d", t.name.c_str(), n))) continue;
      with(pairs[0], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
        const int res[] = {0, 16, 32, 64, 128};
        for (int a = 0; a < 5; ++a)
          for (int b = 0; b < 5; ++b)
            for (int c = 0; c < 5; ++c)
              for (int e = 0; e < 5; ++e)
                for (int per = 0; per <= 1; ++per) {
                  Shape s;
                  s.n = n;
                  s.levels = 2;
                  s.per_seed = per;
                  s.off[0] = res[a];
                  s.off[1] = res[b];
                  s.off[2] = res[c];
                  s.off[3] = res[e];
                  s.inplace = a == e && (b + c) % 2;
                  s.pattern = (a + b + c + e) % 4;
                  RunShape(s, ref, pl, pr, nohwy);
                }
      });
    }
    // Other keys.
    for (size_t k = 1; k < pairs.size(); ++k) {
      for (int n : {1, 3, 4, 7, 16, 19, 65}) {
        if (!vp::Case(F("keys/%s/%zu/n%d", t.name.c_str(), k, n))) continue;
        with(pairs[k], [&](const Refs& ref, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
          for (int pat = 0; pat < 4; ++pat)
            for (int per = 0; per <= 1; ++per) {
              Shape s;
              s.n = n;
              s.levels = 5;
              s.per_seed = per;
              s.pattern = pat;
              RunShape(s, ref, pl, pr, nohwy);
            }
        });
      }
    }
    // Numbers of correction words that fit neither layout.
    if (!nohwy && vp::Case(F("count/%s", t.name.c_str()))) {
      with(pairs[0], [&](const Refs&, const Aes128FixedKeyHash& pl, const Aes128FixedKeyHash& pr) {
        alignas(256) static u128 in[64], out[64], paths[64], cw[512];
        static bool cin[64], cout[64], cl[512], cr[512];
        for (int n = 1; n <= 9; ++n)
          for (int l = 1; l <= 5; ++l)
            for (int c = 0; c <= n * l + 3; ++c) {
              memset(out, 0x11, sizeof out);
              auto st = dpf::dpf_internal::EvaluateSeeds(n, l, c, in, cin, paths, 0, cw, cl, cr, pl, pr, out, cout);
              vp::Trans();
              bool ok = c == l || c == n * l;
              if (st.ok() != ok || (!ok && st.code() != absl::StatusCode::kInvalidArgument))
                vp::Fail("count", "n=%d levels=%d correction words=%d: %s", n, l, c, st.ToString().c_str());
              if (!ok && out[0] != absl::MakeUint128(0x1111111111111111, 0x1111111111111111))
                vp::Fail("count", "n=%d levels=%d correction words=%d: refused but wrote output", n, l, c);
              vp::State(n * 1000 + l * 100 + c);
            }
      });
    }
  }
  if (vp::W().samples.empty()) {
    std::string names;
    for (auto& t : targets) names += t.name + " ";
    vp::Sample("targets: " + names);
  }
}

// ---------------------------------------------------------------------------
void HashMode() {
  std::vector<u128> keys = {0, ~u128{0}, absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL),
                            absl::MakeUint128(0x0123456789abcdefULL, 0xfedcba9876543210ULL)};
  for (int i = 0; i < 128; ++i) keys.push_back(u128{1} << i);
  auto pat = [](int p, int64_t i) -> u128 {
    switch (p) {
      case 0: return Rnd(21, i);
      case 1: return u128{1} << (i % 128);
      case 2: return ~(u128{1} << (i % 128));
      case 3: return i % 3 ? ~u128{0} : u128{0};
      default: return absl::MakeUint128(i, ~(uint64_t)i);
    }
  };
  // Every key with walking-one blocks.
  for (size_t k = 0; k < keys.size(); ++k) {
    if (!vp::Case(F("key/%zu", k))) continue;
    vp::RefHash ref(keys[k]);
    auto h = Aes128FixedKeyHash::Create(keys[k]);
    if (!h.ok()) {
      vp::Fail("create", "key %zu: %s", k, h.status().ToString().c_str());
      continue;
    }
    if (h->key() != keys[k]) vp::Fail("key", "key() is not the key given");
    for (int p = 0; p < 5; ++p) {
      std::vector<u128> in(260), out(260);
      for (int i = 0; i < 260; ++i) in[i] = pat(p, i);
      auto st = h->Evaluate(in, absl::MakeSpan(out));
      vp::Trace();
      if (!st.ok()) vp::Fail("error", "%s", st.ToString().c_str());
      for (int i = 0; i < 260; ++i) {
        vp::Trans();
        if (out[i] != ref(in[i])) {
          vp::Fail("value", "key %zu pattern %d block %d differs from AES(sigma(x)) ^ sigma(x)", k, p, i);
          break;
        }
      }
      vp::State(vp::Hash(out.data(), out.size() * 16));
    }
  }
  // Every length, against the end of a page, with canaries; consecutive lengths on one object.
  for (int rep = 0; rep < 4; ++rep) {
    for (int n0 = 0; n0 <= 520; n0 += 20) {
      if (!vp::Case(F("len/%d/%d", rep, n0))) continue;
      u128 key = keys[rep + (rep > 3)];
      vp::RefHash ref(key);
      auto h0 = Aes128FixedKeyHash::Create(key);
      vp::Guarded gi(600 * 16), go(600 * 16);
      Aes128FixedKeyHash h = std::move(*h0);
      for (int n = n0; n < n0 + 20; ++n) {
        auto* in = reinterpret_cast<u128*>(gi.End(n * 16));
        auto* out = reinterpret_cast<u128*>(go.End(n * 16));
        for (int i = 0; i < n; ++i) in[i] = pat(rep, i + n);
        std::vector<u128> keep(in, in + n);
        go.Fill(0xc5);
        auto st = h.Evaluate(absl::MakeConstSpan(in, n), absl::MakeSpan(out, n));
        vp::Trace();
        if (!st.ok()) vp::Fail("error", "length %d: %s", n, st.ToString().c_str());
        for (int i = 0; i < n; ++i) {
          vp::Trans();
          if (out[i] != ref(keep[i])) {
            vp::Fail("value", "length %d block %d", n, i);
            break;
          }
        }
        if (memcmp(keep.data(), in, n * 16)) vp::Fail("input-changed", "length %d", n);
        for (uint8_t* p = go.begin(); p < reinterpret_cast<uint8_t*>(out); ++p)
          if (*p != 0xc5) {
            vp::Fail("stray-write", "length %d", n);
            break;
          }
        vp::State(vp::Hash(out, n * 16, n));
      }
    }
  }
  // Long batches.
  for (int n : {640, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100003, 262145, (1 << 20) + 129, 2100000}) {
    if (!vp::Case(F("long/%d", n))) continue;
    vp::RefHash ref(keys[2]);
    auto h = Aes128FixedKeyHash::Create(keys[2]);
    std::vector<u128> in(n), out(n), want(n);
    for (int i = 0; i < n; ++i) want[i] = ref(in[i] = pat(0, i % 5000) ^ (i / 5000));
    for (int place = 0; place < 2; ++place) {
      auto st = place ? h->Evaluate(absl::MakeConstSpan(in), absl::MakeSpan(in)) : h->Evaluate(in, absl::MakeSpan(out));
      vp::Trace();
      vp::Trans(n);
      if (!st.ok() || (place ? in : out) != want) vp::Fail("long", "length %d%s: wrong result", n, place ? " in place" : "");
    }
    vp::State(vp::Hash(want.data(), n * 16, n));
  }
  // Overlapping buffers: every offset.
  for (int n : {1, 2, 3, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 200, 257}) {
    if (!vp::Case(F("overlap/%d", n))) continue;
    vp::RefHash ref(keys[2]);
    auto h = Aes128FixedKeyHash::Create(keys[2]);
    const int span = std::min(n + 2, vp::Pick(135, 300));
    for (int d = -span; d <= span; ++d) {
      std::vector<u128> buf(n + 2 * span + 4, absl::MakeUint128(0xc5c5, 0xc5c5));
      int i0 = span + 2, o0 = i0 + d;
      std::vector<u128> want(buf);
      for (int i = 0; i < n; ++i) want[i0 + i] = buf[i0 + i] = pat(0, i);
      for (int i = 0; i < n; ++i) want[o0 + i] = ref(pat(0, i));
      auto st = h->Evaluate(absl::MakeConstSpan(buf.data() + i0, n), absl::MakeSpan(buf.data() + o0, n));
      vp::Trace();
      vp::Trans(n);
      if (!st.ok()) vp::Fail("error", "overlap %d length %d: %s", d, n, st.ToString().c_str());
      if (buf != want) vp::Fail("overlap", "length %d, output %d blocks after input: wrong result", n, d);
      vp::State(vp::Hash(buf.data(), buf.size() * 16, d));
    }
  }
  // Size mismatch is refused and writes nothing.
  for (int a = 0; a <= 70; ++a) {
    if (!vp::Case(F("mismatch/%d", a))) continue;
    auto h = Aes128FixedKeyHash::Create(keys[2]);
    for (int b = 0; b <= 70; ++b) {
      std::vector<u128> in(a, 7), out(b, 9);
      auto st = h->Evaluate(in, absl::MakeSpan(out));
      vp::Trans();
      vp::State(a * 100 + b);
      if (a == b) {
        if (!st.ok()) vp::Fail("mismatch", "equal sizes %d refused", a);
      } else {
        if (st.code() != absl::StatusCode::kInvalidArgument) vp::Fail("mismatch", "in %d out %d: %s", a, b, st.ToString().c_str());
        for (auto& x : out)
          if (x != 9) vp::Fail("mismatch", "in %d out %d: wrote output", a, b);
      }
    }
  }
  // All sequences of {hash a short batch, hash a long batch, hash a refused batch, move
  // construct, move assign} up to a depth: the object always hashes the same way.
  for (int depth = 1; depth <= vp::Pick(5, 7); ++depth) {
    for (int first = 0; first < 5; ++first) {
      if (!vp::Case(F("seq/%d/%d", depth, first))) continue;
      int64_t total = 1;
      for (int i = 1; i < depth; ++i) total *= 5;
      vp::RefHash ref(keys[3]);
      for (int64_t code = 0; code < total; ++code) {
        auto h0 = Aes128FixedKeyHash::Create(keys[3]);
        auto o0 = Aes128FixedKeyHash::Create(keys[1]);
        std::unique_ptr<Aes128FixedKeyHash> h(new Aes128FixedKeyHash(std::move(*h0)));
        int64_t c = code;
        for (int i = 0; i < depth; ++i) {
          int op = i == 0 ? first : c % 5;
          if (i) c /= 5;
          vp::Trans();
          if (op <= 1) {
            int n = op ? 67 : 1;
            std::vector<u128> in(n), out(n);
            for (int k = 0; k < n; ++k) in[k] = pat(0, k + i);
            auto st = h->Evaluate(in, absl::MakeSpan(out));
            for (int k = 0; k < n; ++k)
              if (!st.ok() || out[k] != ref(in[k])) {
                vp::Fail("sequence", "depth %d code %lld step %d block %d", depth, (long long)code, i, k);
                break;
              }
          } else if (op == 2) {
            std::vector<u128> in(3), out(2);
            if (h->Evaluate(in, absl::MakeSpan(out)).ok()) vp::Fail("mismatch", "refused batch accepted");
          } else if (op == 3) {
            h.reset(new Aes128FixedKeyHash(std::move(*h)));
          } else {
            std::unique_ptr<Aes128FixedKeyHash> g(new Aes128FixedKeyHash(std::move(*o0)));
            *g = std::move(*h);
            o0 = Aes128FixedKeyHash::Create(keys[1]);
            h = std::move(g);
          }
          if (h->key() != keys[3]) vp::Fail("key", "key() changed");
        }
        vp::Trace();
        vp::State(vp::Mix(depth * 100000 + first) ^ code);
      }
    }
  }
}
}  // namespace

void VpRun() {
  if (vp::Mode("seeds")) Seeds();
  else HashMode();
}
