// P25: simple and multiple-choice hash tables. P27: hash families.
#include <farmhash.h>
#include <openssl/sha.h>
#include <sys/wait.h>

#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include "vp.h"
using namespace vp;
namespace dp = distributed_point_functions;
using dp::HashFunction;
using Table = std::vector<std::vector<std::string>>;

namespace {
// Distinct elements: empty, embedded zeros, prefixes of each other.
const std::vector<std::string> kElems = {"", std::string(1, '\0'), "ab", std::string("a\0b", 3), "abc"};

struct Cands {
  int nb = 1, k = 1;
  std::vector<std::vector<int>> c;  // [element][function]
  int bad_bounds = 0, foreign = 0;
  int Of(absl::string_view s, int j, int bound) {
    if (bound != nb) ++bad_bounds;
    for (size_t e = 0; e < kElems.size(); ++e)
      if (s == kElems[e] && e < c.size()) return c[e][j];
    ++foreign;
    return 0;
  }
  std::vector<HashFunction> Functions() {
    std::vector<HashFunction> f;
    for (int j = 0; j < k; ++j) f.push_back([this, j](absl::string_view s, int b) { return Of(s, j, b); });
    return f;
  }
};

uint64_t H(const Table& t) {
  uint64_t h = t.size();
  for (auto& b : t) {
    h = Mix(h + b.size());
    for (auto& s : b) h = Hash(s, h);
  }
  return h;
}
std::string Show(const Table& t) {
  std::string r;
  for (auto& b : t) {
    r += "[";
    for (auto& s : b) r += F("<%zu:%s>", s.size(), s.c_str());
    r += "]";
  }
  return r;
}

template <typename T>
void RunSeq(Cands& c, int limit, const std::vector<int>& seq, bool simple) {
  auto t = T::Create(c.Functions(), c.nb, limit < 0 ? absl::optional<int>() : absl::optional<int>(limit));
  if (!t.ok()) { Fail("create", "%s", t.status().ToString().c_str()); return; }
  Table model(c.nb);
  if ((*t)->GetTable() != model) Fail("initial", "table not empty after Create");
  std::string hist;
  for (int e : seq) {
    hist += F(" %d(", e);
    for (int x : c.c[e]) hist += F("%d", x);
    hist += ")";
    Table before = model;
    absl::Status s = (*t)->Insert(kElems[e]);
    Trans();
    const Table& got = (*t)->GetTable();
    if (simple) {
      Table next = model;
      for (int x : c.c[e]) next[x].push_back(kElems[e]);
      bool fits = true;
      for (auto& b : next)
        if (limit >= 0 && (int)b.size() > limit) fits = false;
      // Buckets over the limit before do not exist: every state is within it.
      if (fits) model = next;
      if (s.ok() != fits) Fail("status", "limit %d, inserts%s: %s", limit, hist.c_str(), s.ToString().c_str());
      if (got != model) Fail(fits ? "content" : "refused-changed", "limit %d, inserts%s: have %s want %s", limit, hist.c_str(), Show(got).c_str(), Show(model).c_str());
      if (got != model) return;
    } else {
      size_t least = SIZE_MAX;
      for (int x : c.c[e]) least = std::min(least, model[x].size());
      bool fits = limit < 0 || (int)least < limit;
      if (s.ok() != fits) Fail("status", "limit %d, inserts%s: %s", limit, hist.c_str(), s.ToString().c_str());
      if (!fits) {
        if (got != model) { Fail("refused-changed", "limit %d, inserts%s: have %s", limit, hist.c_str(), Show(got).c_str()); return; }
      } else {
        bool found = false;
        for (int x : c.c[e]) {
          if (model[x].size() != least) continue;
          Table next = model;
          next[x].push_back(kElems[e]);
          if (got == next) { model = next; found = true; break; }
        }
        if (!found) {
          Fail("content", "limit %d, inserts%s: had %s have %s", limit, hist.c_str(), Show(before).c_str(), Show(got).c_str());
          return;
        }
      }
    }
    State(H(model) ^ Mix(limit + 7));
  }
  if (c.bad_bounds) Fail("bound", "hash function called with a bound other than the number of buckets");
  if (c.foreign) Fail("foreign", "hash function called on something that was never inserted");
  if constexpr (std::is_same_v<T, dp::SimpleHashTable>) {
  if ((int)(*t)->GetHashFunctions().size() != c.k) Fail("functions", "GetHashFunctions: %zu of %d", (*t)->GetHashFunctions().size(), c.k);
  else
    for (int j = 0; j < c.k; ++j)
      if ((*t)->GetHashFunctions()[j](kElems[0], c.nb) != c.c[0][j]) Fail("functions", "GetHashFunctions()[%d] differs", j);
  }
  Trace();
}

void AllSeqs(int ne, int len, const std::function<void(const std::vector<int>&)>& f) {
  std::vector<int> s(len, 0);
  for (;;) {
    f(s);
    int i = len - 1;
    while (i >= 0 && ++s[i] == ne) s[i--] = 0;
    if (i < 0) return;
  }
}

void TablesMode() {
  struct Size { int nb, k, ne, len; bool thorough; };
  std::vector<Size> sizes = {{1, 1, 2, 5, false}, {1, 2, 2, 5, false}, {2, 1, 3, 5, false}, {2, 2, 2, 6, false}, {2, 2, 3, 5, false},
                             {2, 3, 2, 5, false}, {3, 2, 2, 6, false}, {3, 2, 3, 5, false}, {3, 3, 2, 5, false}, {4, 2, 2, 5, false},
                             {3, 1, 4, 5, false}, {4, 3, 2, 4, false}, {2, 4, 2, 5, false}, {2, 2, 4, 5, true}, {4, 2, 3, 5, true},
                             {3, 3, 3, 4, true}, {4, 4, 2, 5, true}, {5, 2, 3, 5, true}, {2, 3, 3, 5, true}};
  for (auto& z : sizes) {
    if (z.thorough && !Thorough()) continue;
    for (int limit : {-1, 1, 2, 3, 4})
      for (int first = 0; first < z.nb; ++first) {
        if (!Case(F("tables/b%d-k%d-e%d/limit%d/c%d", z.nb, z.k, z.ne, limit, first))) continue;
        // All candidate assignments.
        std::vector<int> a(z.ne * z.k, 0);
        a[0] = first;
        for (;;) {
          Cands c;
          c.nb = z.nb;
          c.k = z.k;
          for (int e = 0; e < z.ne; ++e) c.c.push_back(std::vector<int>(a.begin() + e * z.k, a.begin() + (e + 1) * z.k));
          AllSeqs(z.ne, z.len, [&](const std::vector<int>& s) {
            RunSeq<dp::SimpleHashTable>(c, limit, s, true);
            if (z.k >= 2) RunSeq<dp::MultipleChoiceHashTable>(c, limit, s, false);
          });
          int i = (int)a.size() - 1;
          while (i >= 1 && ++a[i] == z.nb) a[i--] = 0;
          if (i < 1) break;
        }
      }
  }
  // Every occupancy of the buckets (made by elements with a single bucket),
  // then one element with every list of candidates, twice.
  for (int nb = 2; nb <= 4; ++nb)
    for (int k = 2; k <= (Thorough() ? 7 : 6); ++k)
      for (int limit : {-1, 1, 3}) {
        if (limit > 0 && k > 5 && !Thorough()) continue;
        for (int occ0 = 0; occ0 <= 3; ++occ0) {
          if (!Case(F("occupied/b%d-k%d/limit%d/%d", nb, k, limit, occ0))) continue;
          std::vector<int> occ(nb, 0);
          occ[0] = occ0;
          for (;;) {
            bool possible = true;
            for (int o : occ) possible &= limit < 0 || o <= limit;
            if (possible) {
              Cands c;
              c.nb = nb, c.k = k;
              std::vector<int> seq;
              for (int b = 0; b < nb; ++b) {
                c.c.push_back(std::vector<int>(k, b));
                for (int i = 0; i < occ[b]; ++i) seq.push_back(b);
              }
              seq.push_back(nb), seq.push_back(nb);
              c.c.push_back(std::vector<int>(k, 0));
              for (;;) {
                RunSeq<dp::MultipleChoiceHashTable>(c, limit, seq, false);
                auto& p = c.c[nb];
                int i = k - 1;
                while (i >= 0 && ++p[i] == nb) p[i--] = 0;
                if (i < 0) break;
              }
            }
            int i = nb - 1;
            while (i >= 1 && ++occ[i] == 4) occ[i--] = 0;
            if (i < 1) break;
          }
        }
      }
  // Longer histories with large limits, real hash families.
  for (int nb : {1, 2, 3, 7, 16, 100})
    for (int k : {1, 2, 3, 5})
      for (int limit : {-1, 1, 5, 17}) {
        if (!Case(F("family/b%d-k%d/limit%d", nb, k, limit))) continue;
        for (int simple = 0; simple < 2; ++simple) {
          if (!simple && k < 2) continue;
          dp::HashFamilyConfig cfg;
          cfg.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
          cfg.set_seed("seed");
          auto fam = dp::CreateHashFamilyFromConfig(cfg), fam2 = dp::CreateHashFamilyFromConfig(cfg);
          if (!fam.ok() || !fam2.ok()) { Fail("family", "%s", fam.status().ToString().c_str()); continue; }
          std::vector<HashFunction> hf;
          for (int j = 0; j < k; ++j) hf.push_back((*fam2)(F("%d", j)));
          absl::optional<int> lim;
          if (limit >= 0) lim = limit;
          std::unique_ptr<dp::SimpleHashTable> st;
          std::unique_ptr<dp::MultipleChoiceHashTable> mt;
          if (simple) {
            auto r = dp::SimpleHashTable::Create(*std::move(fam), nb, k, lim);
            if (!r.ok()) { Fail("create", "%s", r.status().ToString().c_str()); continue; }
            st = *std::move(r);
          } else {
            auto r = dp::MultipleChoiceHashTable::Create(*std::move(fam), nb, k, lim);
            if (!r.ok()) { Fail("create", "%s", r.status().ToString().c_str()); continue; }
            mt = *std::move(r);
          }
          Table model(nb);
          for (int i = 0; i < 60; ++i) {
            std::string e = i % 7 == 3 ? "repeat" : F("element %d", i) + std::string(i % 3, '\0');
            std::vector<int> c;
            for (auto& h : hf) c.push_back(h(e, nb));
            absl::Status s = simple ? st->Insert(e) : mt->Insert(e);
            Trans();
            const Table& got = simple ? st->GetTable() : mt->GetTable();
            bool fits = true;
            if (simple) {
              Table next = model;
              for (int x : c) next[x].push_back(e);
              for (auto& b : next)
                if (limit >= 0 && (int)b.size() > limit) fits = false;
              if (fits) model = next;
            } else {
              size_t least = SIZE_MAX;
              for (int x : c) least = std::min(least, model[x].size());
              fits = limit < 0 || (int)least < limit;
              if (fits) {
                for (int x : c)
                  if (model[x].size() == least && got[x].size() == least + 1) { model[x].push_back(e); break; }
              }
            }
            if (s.ok() != fits) Fail("status", "simple=%d element %d: %s", simple, i, s.ToString().c_str());
            if (got != model) { Fail("content", "simple=%d element %d: have %s want %s", simple, i, Show(got).c_str(), Show(model).c_str()); break; }
            State(H(got));
          }
          Trace();
        }
      }
  // Bucket sizes and limits beyond 8 and 16 bits.
  for (int nb : {1, 2, 3})
    for (int limit : {-1, 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65540})
      for (int simple = 0; simple < 2; ++simple) {
        if (!Case(F("many/b%d/limit%d/%s", nb, limit, simple ? "simple" : "choice"))) continue;
        const int k = simple ? 1 : 2;
        std::vector<HashFunction> hf;
        auto at = [](absl::string_view s, int j) {  // "element <number>"
          int64_t n = 0;
          for (char c : s.substr(8)) n = n * 10 + (c - '0');
          return int(Mix(n) >> (8 * j) & 0xffff);
        };
        for (int j = 0; j < k; ++j) hf.push_back([&, j](absl::string_view s, int b) { return at(s, j) % b; });
        absl::optional<int> lim;
        if (limit >= 0) lim = limit;
        absl::StatusOr<std::unique_ptr<dp::SimpleHashTable>> s(nullptr);
        absl::StatusOr<std::unique_ptr<dp::MultipleChoiceHashTable>> m(nullptr);
        if (simple) s = dp::SimpleHashTable::Create(std::move(hf), nb, lim);
        else m = dp::MultipleChoiceHashTable::Create(std::move(hf), nb, lim);
        if (!s.ok() || !m.ok()) { Fail("create", "limit %d refused", limit); continue; }
        Table model(nb);
        const int total = limit < 0 ? 70000 * nb : std::min(limit + 3, 66000) * nb + 200;
        bool stop = false;
        for (int i = 0; i < total && !stop; ++i) {
          std::string e = F("element %d", i);
          const Table& got = simple ? (*s)->GetTable() : (*m)->GetTable();
          int x = at(e, 0) % nb;
          if (!simple) {
            int y = at(e, 1) % nb;
            if (model[y].size() < model[x].size()) x = y;
            bool tie = model[y].size() == model[x].size() && x != y;
            size_t ysize = tie ? got[y].size() : 0;
            bool fits = limit < 0 || (int)model[x].size() < limit;
            absl::Status st = (*m)->Insert(e);
            if (st.ok() != fits) { Fail("many", "limit %d, bucket of %zu: %s", limit, model[x].size(), st.ToString().c_str()); stop = true; }
            if (tie && got[y].size() != ysize) x = y;
            if (fits) model[x].push_back(e);
          } else {
            bool fits = limit < 0 || (int)model[x].size() < limit;
            absl::Status st = (*s)->Insert(e);
            if (st.ok() != fits) { Fail("many", "limit %d, bucket of %zu: %s", limit, model[x].size(), st.ToString().c_str()); stop = true; }
            if (fits) model[x].push_back(e);
          }
          Trans();
          for (int b = 0; b < nb && !stop; ++b)
            if (got[b].size() != model[b].size()) { Fail("many", "limit %d, after %d insertions: bucket of %zu, want %zu", limit, i + 1, got[b].size(), model[b].size()); stop = true; }
        }
        const Table& got = simple ? (*s)->GetTable() : (*m)->GetTable();
        if (!stop && got != model) Fail("many", "limit %d: content differs after %d insertions", limit, total);
        State(Hash(F("%d %d %d", nb, limit, simple)));
        Trace();
      }
  // Configurations.
  if (Case("config")) {
    std::vector<int> nums = {INT32_MIN, -1, 0, 1, 2, 3};
    for (int nb : nums)
      for (int k = 0; k <= 3; ++k)
        for (int lim : nums)
          for (int has = 0; has < 2; ++has) {
            Cands c;
            c.k = k;
            absl::optional<int> l;
            if (has) l = lim;
            bool ok = nb > 0 && k >= 1 && (!has || lim > 0);
            auto s = dp::SimpleHashTable::Create(c.Functions(), nb, l);
            auto m = dp::MultipleChoiceHashTable::Create(c.Functions(), nb, l);
            Trans(2);
            State(Hash(F("%d %d %d %d", nb, k, lim, has)));
            if (s.ok() != ok) Fail("config", "simple buckets %d functions %d limit %d/%d: %s", nb, k, has, lim, s.status().ToString().c_str());
            if (m.ok() != (ok && k >= 2)) Fail("config", "multiple choice buckets %d functions %d limit %d/%d: %s", nb, k, has, lim, m.status().ToString().c_str());
            if (s.ok() && (int)(*s)->GetTable().size() != nb) Fail("size", "simple: %zu buckets of %d", (*s)->GetTable().size(), nb);
            if (m.ok() && (int)(*m)->GetTable().size() != nb) Fail("size", "multiple choice: %zu buckets of %d", (*m)->GetTable().size(), nb);
            for (int kk : {-1, INT32_MIN, 0, 1, 2, 4}) {
              auto s2 = dp::SimpleHashTable::Create(dp::FarmHashFamily{}, nb, kk, l);
              auto m2 = dp::MultipleChoiceHashTable::Create(dp::FarmHashFamily{}, nb, kk, l);
              bool base = nb > 0 && (!has || lim > 0);
              if (s2.ok() != (base && kk >= 1)) Fail("config", "simple family buckets %d functions %d limit %d/%d: %s", nb, kk, has, lim, s2.status().ToString().c_str());
              if (m2.ok() != (base && kk >= 2)) Fail("config", "multiple choice family buckets %d functions %d limit %d/%d: %s", nb, kk, has, lim, m2.status().ToString().c_str());
              Trans(2);
            }
          }
    Trace();
  }
  // Arguments left out: one (two) hash functions of the family, no limit.
  for (int nb : {1, 2, 7, 129})
    for (int given = 0; given < 3; ++given) {
      if (!Case(F("defaults/b%d/%d", nb, given))) continue;
      for (int simple = 0; simple < 2; ++simple) {
        const int k = given == 0 ? (simple ? 1 : 2) : given + 1;
        std::unique_ptr<dp::SimpleHashTable> st;
        std::unique_ptr<dp::MultipleChoiceHashTable> mt;
        absl::Status made;
        if (simple) {
          auto r = given ? dp::SimpleHashTable::Create(dp::FarmHashFamily{}, nb, k) : dp::SimpleHashTable::Create(dp::FarmHashFamily{}, nb);
          made = r.status();
          if (r.ok()) st = *std::move(r);
        } else {
          auto r = given ? dp::MultipleChoiceHashTable::Create(dp::FarmHashFamily{}, nb, k) : dp::MultipleChoiceHashTable::Create(dp::FarmHashFamily{}, nb);
          made = r.status();
          if (r.ok()) mt = *std::move(r);
        }
        if (!made.ok()) { Fail("create", "defaults: %s", made.ToString().c_str()); continue; }
        auto hf = dp::CreateHashFunctions(dp::FarmHashFamily{}, k);
        if (!hf.ok()) { Fail("functions", "%s", hf.status().ToString().c_str()); continue; }
        Table model(nb);
        for (int i = 0; i < 300; ++i) {
          std::string e = F("%d", i * i);
          absl::Status s = simple ? st->Insert(e) : mt->Insert(e);
          const Table& got = simple ? st->GetTable() : mt->GetTable();
          Trans();
          if (simple) {
            for (auto& h : *hf) model[h(e, nb)].push_back(e);
          } else {
            size_t least = SIZE_MAX;
            for (auto& h : *hf) least = std::min(least, model[h(e, nb)].size());
            for (auto& h : *hf) {
              int x = h(e, nb);
              if (model[x].size() == least && got[x].size() == least + 1) { model[x].push_back(e); break; }
            }
          }
          if (!s.ok() || got != model) { Fail("defaults", "simple=%d, %d buckets, element %d: %s, have %s want %s", simple, nb, i, s.ToString().c_str(), Show(got).c_str(), Show(model).c_str()); break; }
          State(H(got));
        }
        Trace();
      }
    }
}

// ---------------------------------------------------------------- P27
int Mod(const uint8_t* d, int n, int bound) {  // little-endian integer mod bound
  uint64_t r = 0;
  for (int i = n - 1; i >= 0; --i) r = (r * 256 + d[i]) % bound;
  return static_cast<int>(r);
}
int RefSha(const std::string& seed, absl::string_view in, int bound) {
  SHA256_CTX c;
  SHA256_Init(&c);
  SHA256_Update(&c, seed.data(), seed.size());
  for (size_t i = 0; i < in.size(); i += 1 << 20) SHA256_Update(&c, in.data() + i, std::min<size_t>(1 << 20, in.size() - i));
  uint8_t d[32];
  SHA256_Final(d, &c);
  return Mod(d, 32, bound);
}
int RefFarm(const std::string& seed, absl::string_view in, int bound) {
  auto s = util::Hash128(seed.data(), seed.size());
  auto h = util::Hash128WithSeed(in.data(), in.size(), s);
  uint8_t d[16];
  for (int i = 0; i < 8; ++i) d[i] = h.first >> (8 * i), d[8 + i] = h.second >> (8 * i);
  return Mod(d, 16, bound);
}
std::string Str(size_t n, uint64_t salt) {
  std::string s;
  for (size_t i = 0; i < n; ++i) s += char(Mix(salt * 1000 + i) >> 11);
  if (n > 2 && salt % 2) s[n / 2] = 0;
  return s;
}
const std::vector<int>& Bounds() {
  static std::vector<int>* b = [] {
    auto* v = new std::vector<int>;
    for (int k = 0; k < 31; ++k)
      for (int d = -1; d <= 1; ++d) {
        int64_t x = (int64_t(1) << k) + d;
        if (x > 0 && x < INT32_MAX) v->push_back(x);
      }
    v->push_back(INT32_MAX);
    v->push_back(INT32_MAX - 1);
    for (int x : {3, 5, 6, 7, 10, 100, 1000, 999983, 1000000007}) v->push_back(x);
    return v;
  }();
  return *b;
}
void Check(const char* fam, const HashFunction& f, const std::string& seed, absl::string_view in, int bound, int want) {
  int got = f(in, bound);
  Trans();
  State(Mix(got) ^ bound);
  if (got != want || got < 0 || got >= bound)
    Fail(fam, "seed of %zu bytes, input of %zu bytes, bound %d: %d, want %d", seed.size(), in.size(), bound, got, want);
}

void FamilyMode() {
  // All bounds up to a limit.
  const int maxb = Pick(2000, 40000);
  for (int blk = 0; blk < 16; ++blk)
    if (Case(F("bounds/%d", blk))) {
      for (auto& seed : {std::string("seed"), std::string(), std::string(1, '\0'), Str(70, 1)})
        for (auto& in : {std::string(), std::string("x"), Str(64, 3)}) {
          HashFunction sha = dp::SHA256HashFamily{}(seed), farm = dp::FarmHashFamily{}(seed);
          for (int b = 1 + blk; b <= maxb; b += 16) {
            Check("sha", sha, seed, in, b, RefSha(seed, in, b));
            Check("farm", farm, seed, in, b, RefFarm(seed, in, b));
          }
        }
      Trace();
    }
  // Lengths of input and seed across block boundaries, every boundary bound.
  const size_t maxl = Pick(200, 400);
  for (size_t l = 0; l <= maxl; ++l)
    if (Case(F("length/%zu", l))) {
      for (size_t sl : {size_t(0), size_t(1), size_t(8), size_t(55), size_t(56), size_t(63), size_t(64), size_t(65), size_t(119), size_t(128)}) {
        std::string seed = Str(sl, 5 + l % 2), in = Str(l, 9 + sl);
        HashFunction sha = dp::SHA256HashFamily{}(seed), farm = dp::FarmHashFamily{}(seed);
        for (int b : Bounds()) {
          Check("sha", sha, seed, in, b, RefSha(seed, in, b));
          Check("farm", farm, seed, in, b, RefFarm(seed, in, b));
        }
      }
      std::string seed = Str(l, 21);
      HashFunction sha = dp::SHA256HashFamily{}(seed), farm = dp::FarmHashFamily{}(seed);
      for (size_t il = 0; il <= 20; ++il)
        for (int b : {1, 2, 1000, INT32_MAX}) {
          std::string in = Str(il, 22);
          Check("sha", sha, seed, in, b, RefSha(seed, in, b));
          Check("farm", farm, seed, in, b, RefFarm(seed, in, b));
        }
      Trace();
    }
  // Every input of up to two bytes (all single bytes, pairs over chosen bytes), repeated calls.
  if (Case("short")) {
    std::string seed("s\0eed", 5);
    HashFunction sha = dp::SHA256HashFamily{}(seed), farm = dp::FarmHashFamily{}(seed);
    for (int rep = 0; rep < 2; ++rep)
      for (int a = -1; a < 256; ++a)
        for (int b = -1; b < 256; ++b) {
          std::string in;
          if (a >= 0) in += char(a);
          if (b >= 0) in += char(b);
          Check("sha", sha, seed, in, 1 << 20, RefSha(seed, in, 1 << 20));
          Check("farm", farm, seed, in, 1 << 20, RefFarm(seed, in, 1 << 20));
        }
    Trace();
  }
  // Families built from a configuration, wrapped and numbered.
  const size_t maxs = Pick(130, 300);
  for (size_t sl = 0; sl <= maxs; ++sl)
    if (Case(F("config/seed%zu", sl))) {
      dp::HashFamilyConfig cfg;
      cfg.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
      std::string seed = Str(sl, 31 + sl % 2);
      cfg.set_seed(seed);
      auto fam = dp::CreateHashFamilyFromConfig(cfg);
      if (fam.ok() != (sl > 0)) Fail("config", "seed of %zu bytes: %s", sl, fam.status().ToString().c_str());
      if (fam.ok()) {
        cfg.set_seed("changed");  // the family holds its own copy
        for (int n : {0, 1, 2, 3, 11, 101}) {
          auto f2 = dp::CreateHashFamilyFromConfig([&] { dp::HashFamilyConfig c; c.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256); c.set_seed(seed); return c; }());
          auto fs = dp::CreateHashFunctions(*std::move(f2), n);
          if (!fs.ok() || (int)fs->size() != n) { Fail("count", "%d functions: %s", n, fs.status().ToString().c_str()); continue; }
          for (int i = 0; i < n; ++i)
            for (auto& in : {std::string(), std::string("0"), std::string("in\0put", 6)})
              for (int b : {1, 97, 1 << 30})
                Check("numbered", (*fs)[i], seed, in, b, RefSha(seed + F("%d", i), in, b));
        }
        for (auto& s2 : {std::string(), std::string("7"), std::string(3, '\0')})
          Check("wrapped", (*fam)(s2), seed, "input", 12345, RefSha(seed + s2, "input", 12345));
        // Nested wrapping prepends outer seeds first.
        dp::WrapWithSeed outer(*std::move(fam), "outer");
        dp::HashFamily o(std::move(outer));
        Check("nested", o("x"), seed, "input", 54321, RefSha(seed + "outer" + "x", "input", 54321));
        dp::HashFamily fw(dp::WrapWithSeed(dp::FarmHashFamily{}, seed));
        Check("farmwrap", fw("x"), seed, "input", 54321, RefFarm(seed + "x", "input", 54321));
      }
      Trace();
    }
  if (Case("families")) {
    for (int f : {0, 1, 2, 3, 100, -1, INT32_MAX, INT32_MIN})
      for (auto& seed : {std::string(), std::string("s"), std::string(1, '\0')}) {
        dp::HashFamilyConfig cfg;
        cfg.set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(f));
        cfg.set_seed(seed);
        auto fam = dp::CreateHashFamilyFromConfig(cfg);
        Trans();
        State(f * 10 + seed.size());
        bool ok = f == 1 && !seed.empty();
        if (fam.ok() != ok) Fail("family", "family %d, seed of %zu bytes: %s", f, seed.size(), fam.status().ToString().c_str());
      }
    for (int n : {-1, -2, INT32_MIN})
      if (dp::CreateHashFunctions(dp::SHA256HashFamily{}, n).ok()) Fail("count", "%d functions accepted", n);
    if (dp::CreateHashFamilyFromConfig(dp::HashFamilyConfig()).ok()) Fail("family", "default configuration accepted");
    Trace();
  }
  // Inputs beyond the size the library hashes in one piece.
  const std::vector<size_t> huge = Thorough()
      ? std::vector<size_t>{(1u << 30) - 1, 1u << 30, (1u << 30) + 1, (size_t(2) << 30), (size_t(2) << 30) + 77, (size_t(4) << 30) + 3}
      : std::vector<size_t>{1u << 30, (1u << 30) + 77};
  for (size_t n : huge)
    if (Case(F("huge/%zu", n))) {
      size_t page = 1 << 16, len = (n / page + 2) * page;
      char* p = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (p == MAP_FAILED) { Count("huge-skipped"); continue; }
      std::string a = Str(999, 41), b = Str(40000, 42);
      memcpy(p, a.data(), a.size());
      for (size_t g = size_t(1) << 30; g < n + 500; g += size_t(1) << 30)
        for (int i = -200; i < 200; ++i) p[g + i] = char(Mix(g + i));
      p[n - 1] = 'z';
      absl::string_view in(p, n);
      HashFunction sha = dp::SHA256HashFamily{}("seed");
      Check("huge", sha, "seed", in, INT32_MAX, RefSha("seed", in, INT32_MAX));
      HashFunction sha2 = dp::SHA256HashFamily{}(in);
      Check("hugeseed", sha2, "huge", "x", INT32_MAX, [&] {
        SHA256_CTX c;
        SHA256_Init(&c);
        for (size_t i = 0; i < n; i += 1 << 20) SHA256_Update(&c, p + i, std::min<size_t>(1 << 20, n - i));
        SHA256_Update(&c, "x", 1);
        uint8_t d[32];
        SHA256_Final(d, &c);
        return Mod(d, 32, INT32_MAX);
      }());
      munmap(p, len);
      Trace();
    }
}
}  // namespace

void VpRun() {
  if (Mode("tables")) TablesMode();
  if (Mode("family")) FamilyMode();
}
