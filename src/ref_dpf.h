// Reference model of the incremental DPF construction (ePrint 2020/1425 as
// published with this library): written from the construction, on plain
// integers and libcrypto's AES block function; shares no code with /repo.
#ifndef VP_REF_DPF_H_
#define VP_REF_DPF_H_
#include <openssl/aes.h>

#include <array>
#include <cstring>
#include <vector>

#include "types.h"

namespace vp {

struct RefHash {
  AES_KEY k;
  explicit RefHash(u128 key) {
    uint8_t b[16];
    Store(key, b);
    AES_set_encrypt_key(b, 128, &k);
  }
  static void Store(u128 x, uint8_t* b) {
    for (int i = 0; i < 8; ++i) b[i] = static_cast<uint8_t>(absl::Uint128Low64(x) >> (8 * i));
    for (int i = 0; i < 8; ++i) b[8 + i] = static_cast<uint8_t>(absl::Uint128High64(x) >> (8 * i));
  }
  static u128 Load(const uint8_t* b) {
    uint64_t lo = 0, hi = 0;
    for (int i = 7; i >= 0; --i) lo = lo << 8 | b[i];
    for (int i = 15; i >= 8; --i) hi = hi << 8 | b[i];
    return absl::MakeUint128(hi, lo);
  }
  u128 operator()(u128 x) const {
    uint64_t hi = absl::Uint128High64(x), lo = absl::Uint128Low64(x);
    u128 sigma = absl::MakeUint128(hi ^ lo, hi);
    uint8_t in[16], out[16];
    Store(sigma, in);
    AES_encrypt(in, out, &k);
    return Load(out) ^ sigma;
  }
};
inline const RefHash& RefLeft() {
  static RefHash h(absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL));
  return h;
}
inline const RefHash& RefRight() {
  static RefHash h(absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL));
  return h;
}
inline const RefHash& RefValue() {
  static RefHash h(absl::MakeUint128(0x05a5d1588c5423e3ULL, 0x46a31101b21d1c98ULL));
  return h;
}

// How a value type is laid out in the tree.
struct RefType {
  std::vector<Leaf> leaves;
  bool direct = true;
  int total_bits = 0;
  int per_block = 1;    // elements carried by one leaf of the tree
  int log_bits = 7;     // tree depth saved is 7 - log_bits
  explicit RefType(const std::vector<Leaf>& l) : leaves(l) {
    for (auto& x : l) {
      if (x.kind == kMod) direct = false;
      total_bits += x.bits;
    }
    if (direct) {
      per_block = total_bits <= 128 ? 128 / total_bits : 1;
      log_bits = 0;
      while ((1 << log_bits) < total_bits) ++log_bits;
      if (log_bits > 7) log_bits = 7;
    }
  }
  // Pseudorandom elements of a tree leaf with the given seed.
  std::vector<Flat> Expand(u128 seed) const {
    size_t pos = 0, have = 0;
    std::vector<uint8_t> buf;
    auto next = [&]() -> uint8_t {
      if (pos == buf.size()) {
        uint8_t b[16];
        RefHash::Store(RefValue()(seed + have++), b);
        buf.insert(buf.end(), b, b + 16);
      }
      return buf[pos++];
    };
    auto take = [&](int bytes) {
      uint8_t b[16] = {0};
      for (int i = 0; i < bytes; ++i) b[i] = next();
      return RefHash::Load(b);
    };
    std::vector<Flat> out;
    if (direct) {
      for (int e = 0; e < per_block; ++e) {
        Flat f;
        for (auto& l : leaves) f.push_back(take(l.bits / 8));
        out.push_back(f);
      }
      return out;
    }
    Flat f;
    u128 block = take(16);
    for (size_t i = 0; i < leaves.size(); ++i) {
      const Leaf& l = leaves[i];
      if (l.kind == kMod) f.push_back(block % l.mod);
      else f.push_back(block & MaskBits(l.bits));
      if (i + 1 == leaves.size()) break;
      if (l.kind == kMod) block = l.bits < 128 ? (block / l.mod) << l.bits : u128{0};
      else block = block & ~MaskBits(l.bits);
      block |= take(l.bits / 8);
    }
    return {f};
  }
};

struct RefCw {
  u128 seed = 0;
  bool left = false, right = false;
  std::vector<Flat> value;  // correction of the hierarchy level that ends here, if any
};
struct RefKeys {
  u128 seed[2];
  std::vector<RefCw> cw;
  std::vector<Flat> last;
};

struct RefDpf {
  std::vector<int> d;
  std::vector<RefType> t;
  std::vector<int> tree;          // tree level of each hierarchy level
  RefDpf(const std::vector<int>& domains, const std::vector<const TypeOps*>& types) : d(domains) {
    int next = 0;
    for (size_t i = 0; i < d.size(); ++i) {
      t.emplace_back(types[i]->leaves);
      int l = d[i] - 7 + t[i].log_bits;
      if (l < next) l = next;
      tree.push_back(l);
      next = l + 1;
    }
  }
  int Height() const { return tree.back(); }
  static void Expand(u128 seed, u128 s[2], bool c[2]) {
    s[0] = RefLeft()(seed);
    s[1] = RefRight()(seed);
    for (int i = 0; i < 2; ++i) {
      c[i] = absl::Uint128Low64(s[i]) & 1;
      s[i] = s[i] & ~u128{1};
    }
  }
  std::vector<Flat> Correction(int h, const u128 s[2], bool invert, u128 alpha, const Flat& beta) const {
    const RefType& ty = t[h];
    std::vector<Flat> a = ty.Expand(s[0]), b = ty.Expand(s[1]), out;
    int drop = d.back() - d[h];
    u128 at = drop >= 128 ? u128{0} : alpha >> drop;
    int in_block_bits = d[h] - tree[h];
    int idx = static_cast<int>(absl::Uint128Low64(at) & ((1u << in_block_bits) - 1));
    for (size_t e = 0; e < a.size(); ++e) {
      Flat f;
      for (size_t i = 0; i < ty.leaves.size(); ++i) {
        const Leaf& l = ty.leaves[i];
        u128 v = RefAdd(l, b[e][i], RefNeg(l, a[e][i]));
        if (static_cast<int>(e) == idx) v = RefAdd(l, v, beta[i]);
        f.push_back(invert ? RefNeg(l, v) : v);
      }
      out.push_back(f);
    }
    return out;
  }
  RefKeys Gen(u128 alpha, const std::vector<Flat>& betas, u128 s0, u128 s1) const {
    RefKeys k;
    k.seed[0] = s0;
    k.seed[1] = s1;
    u128 s[2] = {s0, s1};
    bool c[2] = {false, true};
    size_t h = 0;
    for (int level = 0; level <= Height(); ++level) {
      std::vector<Flat> value;
      if (h < tree.size() && tree[h] == level) {
        value = Correction(h, s, c[1], alpha, betas[h]);
        ++h;
      }
      if (level == Height()) {
        k.last = value;
        break;
      }
      u128 e[2][2];
      bool ec[2][2];
      for (int p = 0; p < 2; ++p) Expand(s[p], e[p], ec[p]);
      int shift = d.back() - (level + 1);
      bool bit = shift < 128 && (absl::Uint128Low64(alpha >> shift) & 1);
      RefCw w;
      w.seed = e[0][!bit] ^ e[1][!bit];
      w.left = ec[0][0] ^ ec[1][0] ^ bit ^ 1;
      w.right = ec[0][1] ^ ec[1][1] ^ bit;
      w.value = value;
      for (int p = 0; p < 2; ++p) {
        u128 ns = e[p][bit];
        bool nc = ec[p][bit];
        if (c[p]) {
          ns ^= w.seed;
          nc ^= bit ? w.right : w.left;
        }
        s[p] = ns;
        c[p] = nc;
      }
      k.cw.push_back(w);
    }
    return k;
  }
  // Share of party p at point x of hierarchy level h.
  Flat Eval(const RefKeys& k, int p, int h, u128 x) const {
    u128 s = k.seed[p];
    bool c = p;
    int in_block_bits = d[h] - tree[h];
    u128 path = in_block_bits >= 128 ? u128{0} : x >> in_block_bits;
    for (int level = 0; level < tree[h]; ++level) {
      u128 e[2];
      bool ec[2];
      Expand(s, e, ec);
      int shift = tree[h] - 1 - level;
      bool bit = shift < 128 && (absl::Uint128Low64(path >> shift) & 1);
      s = e[bit];
      bool nc = ec[bit];
      if (c) {
        s ^= k.cw[level].seed;
        nc ^= bit ? k.cw[level].right : k.cw[level].left;
      }
      c = nc;
    }
    int idx = static_cast<int>(absl::Uint128Low64(x) & ((1u << in_block_bits) - 1));
    Flat f = t[h].Expand(s)[idx];
    const std::vector<Flat>& corr = h + 1 == (int)d.size() ? k.last : k.cw[tree[h]].value;
    for (size_t i = 0; i < f.size(); ++i) {
      const Leaf& l = t[h].leaves[i];
      if (c) f[i] = RefAdd(l, f[i], corr[idx][i]);
      if (p) f[i] = RefNeg(l, f[i]);
    }
    return f;
  }
};
}  // namespace vp
#endif
