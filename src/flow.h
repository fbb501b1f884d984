// Which bits of the system's random source influence which outputs: a scenario
// is run once, then once more for every bit of the source flipped.
#ifndef VP_FLOW_H_
#define VP_FLOW_H_
#include <functional>
#include <string>
#include <vector>

#include "vp.h"
#include "vp_rand.h"

namespace vp {
struct FlowItem {
  FlowItem(std::string n, std::string b, int w = -1) : name(n), bytes(b), bits(w) {}
  std::string name;
  std::string bytes;
  int bits;  // number of low (little-endian) bits that count; -1: all
  std::vector<uint64_t> influences;  // source bits that change this item
  std::string covered;              // bits that some source bit changes
  int rank = 0;                           // independent changes
  int Width() const { return bits < 0 ? int(bytes.size() * 8) : bits; }
  int CoveredBits() const {
    int n = 0;
    for (int i = 0; i < Width(); ++i) n += covered[i / 8] >> (i % 8) & 1;
    return n;
  }
  int Influences() const {
    int n = 0;
    for (uint64_t w : influences) n += __builtin_popcountll(w);
    return n;
  }
};
inline bool Share(const FlowItem& a, const FlowItem& b) {
  for (size_t i = 0; i < a.influences.size(); ++i)
    if (a.influences[i] & b.influences[i]) return true;
  return false;
}
inline std::string Word(uint64_t v) { return std::string(reinterpret_cast<char*>(&v), 8); }

// Runs `scenario` (which must only depend on the random source) and analyses it.
// Empty if it cannot be analysed (reported as a failure).
inline std::vector<FlowItem> AnalyseFlow(const std::function<std::vector<FlowItem>()>& scenario, uint64_t seed, const std::string& what) {
  R().Reset(seed);
  R().record = true;
  std::vector<FlowItem> base = scenario();
  const std::string log = R().log;
  Trace();
  if (base.empty()) return base;
  R().ResetScript(log, seed + 1);
  std::vector<FlowItem> again = scenario();
  bool same = again.size() == base.size();
  for (size_t k = 0; same && k < base.size(); ++k) same = again[k].bytes == base[k].bytes;
  if (!same) {
    Fail("not-reproducible", "%s: output depends on something other than the system's random source", what.c_str());
    return {};
  }
  const size_t n = log.size() * 8;
  // Row echelon form of the changes of each item.
  std::vector<std::vector<std::string>> basis(base.size());
  for (size_t k = 0; k < base.size(); ++k) {
    base[k].influences.assign((n + 63) / 64, 0);
    base[k].covered.assign(base[k].bytes.size(), '\0');
    basis[k].resize(base[k].Width());
  }
  for (size_t i = 0; i < n; ++i) {
    std::string s = log;
    s[i / 8] ^= 1 << (i % 8);
    R().ResetScript(s, seed + 1);
    auto v = scenario();
    Trans();
    if (v.size() != base.size()) {
      Fail("flow-shape", "%s: %zu items instead of %zu with source bit %zu changed", what.c_str(), v.size(), base.size(), i);
      return {};
    }
    for (size_t k = 0; k < base.size(); ++k) {
      FlowItem& b = base[k];
      if (v[k].bytes == b.bytes) continue;
      if (v[k].bytes.size() != b.bytes.size()) {
        b.influences[i / 64] |= uint64_t(1) << (i % 64);
        continue;
      }
      std::string d(b.bytes.size(), '\0');
      bool any = false;
      for (int j = 0; j < b.Width(); ++j)
        if ((v[k].bytes[j / 8] ^ b.bytes[j / 8]) >> (j % 8) & 1) d[j / 8] |= 1 << (j % 8), any = true;
      if (!any) continue;
      b.influences[i / 64] |= uint64_t(1) << (i % 64);
      for (size_t j = 0; j < d.size(); ++j) b.covered[j] |= d[j];
      State(Hash(d, k * 100000 + i));
      if (b.rank == b.Width()) continue;
      for (int j = 0; j < b.Width(); ++j) {
        if (!(d[j / 8] >> (j % 8) & 1)) continue;
        if (basis[k][j].empty()) { basis[k][j] = d; ++b.rank; break; }
        for (size_t x = 0; x < d.size(); ++x) d[x] ^= basis[k][j][x];
      }
    }
  }
  return base;
}
// Every bit of a secret must be random on its own. The rank bound leaves room
// for secrets derived from the source by a pseudorandom function.
inline void CheckFull(const FlowItem& s, const std::string& what) {
  if (s.CoveredBits() != s.Width()) Fail("fixed-bits", "%s: only %d of the %d bits of %s depend on the random source", what.c_str(), s.CoveredBits(), s.Width(), s.name.c_str());
  else if (s.rank < s.Width() - 4 || s.rank == 0) Fail("low-entropy", "%s: the %d bits of %s have only %d independent bits", what.c_str(), s.Width(), s.name.c_str(), s.rank);
}
inline void CheckApart(const FlowItem& a, const FlowItem& b, const std::string& what) {
  if (Share(a, b)) Fail("shared-randomness", "%s: %s and %s depend on the same random bits", what.c_str(), a.name.c_str(), b.name.c_str());
}
}  // namespace vp
#endif
