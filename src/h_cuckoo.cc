// P26: cuckoo hash table, every outcome of its random eviction choices.
#include <algorithm>
#include <cmath>

#include "choices.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "vp.h"
using namespace vp;
namespace dp = distributed_point_functions;
using dp::CuckooHashTable;
using dp::HashFunction;

namespace {
const std::vector<std::string> kElems = {"", std::string(1, '\0'), "ab", std::string("a\0b", 3), "abc", "abcd", "b"};

struct Setup {
  int nb, k, relocs, stash;  // stash -1: unlimited
  std::vector<std::vector<int>> c;
  int bad_bounds = 0, foreign = 0;
  int IdOf(absl::string_view s) const {
    for (size_t e = 0; e < c.size(); ++e)
      if (s == kElems[e]) return e;
    return -1;
  }
  std::vector<HashFunction> Functions() {
    std::vector<HashFunction> f;
    for (int j = 0; j < k; ++j)
      f.push_back([this, j](absl::string_view s, int b) {
        if (b != nb) ++bad_bounds;
        int e = IdOf(s);
        if (e < 0) { ++foreign; return 0; }
        return c[e][j];
      });
    return f;
  }
};

struct Obs {
  std::vector<int> table, stash;  // element ids, -1: free, -2: unknown
  bool operator==(const Obs& o) const { return table == o.table && stash == o.stash; }
};
Obs Look(const Setup& s, const CuckooHashTable& t) {
  Obs o;
  for (auto& b : t.GetTable()) {
    if (!b) o.table.push_back(-1);
    else {
      int e = s.IdOf(*b);
      o.table.push_back(e < 0 ? -2 : e);
    }
  }
  for (auto& x : t.GetStash()) {
    int e = s.IdOf(x);
    o.stash.push_back(e < 0 ? -2 : e);
  }
  return o;
}
std::vector<int> All(const Obs& o) {
  std::vector<int> v = o.stash;
  for (int x : o.table)
    if (x != -1) v.push_back(x);
  std::sort(v.begin(), v.end());
  return v;
}
std::string Show(const Obs& o) {
  std::string r;
  for (int x : o.table) r += x == -1 ? "." : x == -2 ? "?" : F("%d", x);
  r += "|";
  for (int x : o.stash) r += x == -2 ? "?" : F("%d", x);
  return r;
}

// Evictions needed to place element e without the stash, at least (-1: impossible).
int Evictions(const Setup& s, const Obs& o, int e) {
  std::vector<int> cur = {e};
  std::set<int> seen = {e};
  for (int d = 0; !cur.empty(); ++d) {
    std::vector<int> nxt;
    for (int x : cur)
      for (int b : s.c[x]) {
        if (o.table[b] == -1) return d;
        if (o.table[b] >= 0 && seen.insert(o.table[b]).second) nxt.push_back(o.table[b]);
      }
    cur = nxt;
  }
  return -1;
}

// Explores all choices of one insertion sequence.
void Explore(Setup& s, const std::vector<int>& seq) {
  C() = Choices();
  C().arity = s.k;
  std::set<std::pair<size_t, uint64_t>> seen;
  auto label = [&](size_t upto) {
    std::string r = F("buckets %d, relocations %d, stash %d, inserts", s.nb, s.relocs, s.stash);
    for (size_t i = 0; i <= upto && i < seq.size(); ++i) {
      r += F(" %d(", seq[i]);
      for (int x : s.c[seq[i]]) r += F("%d", x);
      r += ")";
    }
    r += " choices";
    for (int x : C().script) r += F(" %d", x);
    return r;
  };
  uint64_t ah = Hash(s.c.data(), 0);
  for (auto& c : s.c) ah = Hash(c.data(), c.size() * sizeof(int), ah);
  int execs = 0;
  bool truncated = false;
  // Insertions that some outcome of the choices must place without the stash.
  std::map<std::pair<size_t, std::string>, std::pair<bool, std::string>> placed;
  do {
    if (++execs > 200000) { Count("truncated"); truncated = true; break; }
    C().Restart();
    const size_t replay = C().script.size();  // choices up to here lead to the new branch
    auto t = CuckooHashTable::Create(s.Functions(), s.nb, s.relocs, s.stash < 0 ? absl::optional<int>() : absl::optional<int>(s.stash));
    if (!t.ok()) { Fail("create", "%s", t.status().ToString().c_str()); return; }
    Obs before = Look(s, **t);
    if ((int)before.table.size() != s.nb || !All(before).empty()) { Fail("initial", "%s", Show(before).c_str()); return; }
    bool complete = true;
    for (size_t i = 0; i < seq.size(); ++i) {
      absl::Status st = (*t)->Insert(kElems[seq[i]]);
      Trans();
      Obs after = Look(s, **t);
      std::vector<int> want = All(before);
      bool free_cand = false;
      for (int x : s.c[seq[i]]) free_cand |= before.table[x] == -1;
      if (std::find(before.table.begin(), before.table.end(), seq[i]) == before.table.end()) {
        int need = Evictions(s, before, seq[i]);
        if (need >= 0 && need <= s.relocs) {
          auto it = placed.emplace(std::make_pair(i, Show(before)), std::make_pair(false, label(i))).first;
          it->second.first |= st.ok() && after.stash == before.stash;
        }
      }
      if (st.ok()) {
        want.push_back(seq[i]);
        std::sort(want.begin(), want.end());
        if (All(after) != want) { Fail("content", "%s: %s -> %s", label(i).c_str(), Show(before).c_str(), Show(after).c_str()); return; }
        if (free_cand && after.stash != before.stash) Fail("stash-used", "%s: free bucket but %s -> %s", label(i).c_str(), Show(before).c_str(), Show(after).c_str());
      } else {
        if (All(after) != want) { Fail("lost", "%s: refused, %s -> %s", label(i).c_str(), Show(before).c_str(), Show(after).c_str()); return; }
        if (free_cand) Fail("refused-free", "%s: refused although a candidate bucket is free in %s", label(i).c_str(), Show(before).c_str());
        if (s.stash < 0 || (int)before.stash.size() < s.stash) Fail("refused-early", "%s: refused although the stash has room in %s", label(i).c_str(), Show(before).c_str());
      }
      for (int b = 0; b < s.nb && b < (int)after.table.size(); ++b)
        if (after.table[b] >= 0) {
          auto& c = s.c[after.table[b]];
          if (std::find(c.begin(), c.end(), b) == c.end()) Fail("misplaced", "%s: element %d in bucket %d", label(i).c_str(), after.table[b], b);
        }
      if (s.stash >= 0 && (int)after.stash.size() > s.stash) Fail("stash-limit", "%s: %s", label(i).c_str(), Show(after).c_str());
      if (after.table.size() != before.table.size()) { Fail("size", "%zu buckets", after.table.size()); return; }
      if (s.bad_bounds) { Fail("bound", "%s", label(i).c_str()); return; }
      if (s.foreign) { Fail("foreign", "%s: hash of a string never inserted", label(i).c_str()); return; }
      before = after;
      // The rest of the execution depends on the table only.
      uint64_t h = Hash(Show(after));
      State(h ^ Mix(ah + i));
      if (C().pos >= replay && !seen.insert({i, h}).second) { complete = false; break; }
    }
    if (complete) Trace();
  } while (C().Next());
  if (!truncated)
    for (auto& [k, v] : placed)
      if (!v.first) Fail("never-placed", "%s: table %s, few enough evictions would place the element, but no outcome of the choices does", v.second.c_str(), k.second.c_str());
  Count("executions", execs);
}
}  // namespace

void VpRun() {
  struct Size { int nb, k, ne; bool thorough; };
  std::vector<Size> sizes = {{1, 2, 2, false}, {1, 3, 3, false}, {2, 2, 3, false}, {3, 2, 3, false}, {2, 3, 3, false}, {2, 2, 4, false}, {4, 2, 3, false},
                             {3, 2, 4, false}, {3, 3, 3, false}, {2, 4, 3, false}, {2, 2, 5, false}, {5, 2, 3, false}, {5, 2, 4, true}, {4, 2, 4, true}, {3, 2, 5, true}, {3, 3, 4, true}};
  for (auto& z : sizes) {
    if (z.thorough && !Thorough()) continue;
    // Distinct elements in one order (assignments cover the others), and two with a repetition.
    std::vector<std::vector<int>> seqs(1);
    for (int e = 0; e < z.ne; ++e) seqs[0].push_back(e);
    seqs.push_back(seqs[0]);
    seqs.back().push_back(0);
    if (z.ne >= 2) { seqs.push_back(seqs[0]); seqs.back().insert(seqs.back().begin() + 1, 0); }
    double count = std::pow(z.nb, z.k * z.ne);
    const bool small = count <= 1100, canonical = count > (Thorough() ? 20000 : 5000);
    std::vector<int> rl = {0, 1, 2, 3}, sl = {-1, 0, 1};
    if (small || (Thorough() && z.k == 2)) rl.push_back(4);
    if (small && z.k <= 3) rl.push_back(z.k == 2 ? Pick(6, 8) : 5);
    if (small || Thorough()) sl.push_back(2);
    for (int r : rl)
      for (int stash : sl) {
        const int first_n = z.nb;
        for (int f0 = 0; f0 < first_n; ++f0) {
          if (!Case(F("b%d-k%d-e%d/relocs%d/stash%d/c%d", z.nb, z.k, z.ne, r, stash, f0))) continue;
          std::vector<int> a(z.ne * z.k, 0);
          a[0] = f0;
          for (;;) {
            Setup s{z.nb, z.k, r, stash};
            for (int e = 0; e < z.ne; ++e) s.c.push_back(std::vector<int>(a.begin() + e * z.k, a.begin() + (e + 1) * z.k));
            // Large settings up to renaming of buckets.
            bool first_use = true;
            int used = 0;
            for (int x : a) {
              first_use &= x <= used;
              if (x == used) ++used;
            }
            if (!canonical || first_use)
              for (auto& q : seqs) Explore(s, q);
            int i = (int)a.size() - 1;
            while (i >= 1 && ++a[i] == z.nb) a[i--] = 0;
            if (i < 1) break;
          }
        }
      }
  }
  // Long relocation chains and full tables, chosen assignments.
  for (int r : {6, 8, Pick(10, 14)})
    for (int stash : {-1, 0, 1})
      for (int pat = 0; pat < 4; ++pat) {
        if (!Case(F("chain/relocs%d/stash%d/p%d", r, stash, pat))) continue;
        Setup s{5, 2, r, stash};
        for (int e = 0; e < 7; ++e) {
          if (pat == 0) s.c.push_back({e % 5, (e + 1) % 5});
          if (pat == 1) s.c.push_back({std::min(e, 4), std::min(e + 1, 4)});
          if (pat == 2) s.c.push_back({(e * 2) % 5, (e * 3) % 5});
          if (pat == 3) s.c.push_back({e / 2, 4 - e / 2});
        }
        Explore(s, {0, 1, 2, 3, 4, 5, 6});
      }
  // Stash sizes beyond 8 and 16 bits.
  for (int limit : {-1, 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65540})
    for (int relocs : {0, 3}) {
      if (!Case(F("large-stash/%d/relocs%d", limit, relocs))) continue;
      C() = Choices();
      C().pseudo = true;
      std::vector<HashFunction> hf;
      for (int j = 0; j < 2; ++j) hf.push_back([j](absl::string_view, int) { return j; });
      auto t = CuckooHashTable::Create(std::move(hf), 2, relocs, limit < 0 ? absl::optional<int>() : absl::optional<int>(limit));
      if (!t.ok()) { Fail("create", "%s", t.status().ToString().c_str()); continue; }
      const int total = limit < 0 ? 70000 : limit + 2 + 3;
      int accepted = 0;
      bool stop = false;
      for (int i = 0; i < total && !stop; ++i) {
        absl::Status st = (*t)->Insert(F("%d", i));
        Trans();
        accepted += st.ok();
        const bool fits = limit < 0 || i < limit + 2;
        if (st.ok() != fits) { Fail(fits ? "refused-early" : "stash-limit", "stash limit %d, element %d: %s", limit, i, st.ToString().c_str()); stop = true; }
        if ((int)(*t)->GetStash().size() != std::max(accepted - 2, 0)) { Fail("content", "stash limit %d, %d accepted: stash of %zu", limit, accepted, (*t)->GetStash().size()); stop = true; }
      }
      std::set<std::string> all((*t)->GetStash().begin(), (*t)->GetStash().end());
      for (auto& b : (*t)->GetTable())
        if (b) all.insert(*b);
      if (!stop)
        for (int i = 0; i < accepted; ++i)
          if (!all.count(F("%d", i))) { Fail("lost", "stash limit %d: element %d is nowhere", limit, i); break; }
      if (!stop && (int)all.size() != accepted) Fail("content", "stash limit %d: %zu elements of %d", limit, all.size(), accepted);
      State(Hash(F("stash %d %d", limit, relocs)));
      Trace();
    }
  // Long relocation chains, up to beyond 8 and 16 bits: a full cycle of
  // buckets, then a path with one free bucket at its end.
  for (int r : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4097, 65535, 65536, 65537})
    for (int stash : {-1, 0, 1})
      for (int nb : {2, 7, 40, 300})
        for (int dir = 0; dir < 3; ++dir) {
          if (r > 2000 && (nb == 40 || nb == 7)) continue;
          if (!Case(F("long-chain/relocs%d/stash%d/b%d/%d", r, stash, nb, dir))) continue;
          C() = Choices();
          auto num = [](absl::string_view s) {
            int n = 0;
            for (char c : s) n = n * 10 + (c - '0');
            return n;
          };
          std::vector<HashFunction> hf;
          for (int j = 0; j < 2; ++j) hf.push_back([j, num](absl::string_view s, int b) { return (num(s) + j) % b; });
          auto t = CuckooHashTable::Create(std::move(hf), nb, r, stash < 0 ? absl::optional<int>() : absl::optional<int>(stash));
          if (!t.ok()) { Fail("create", "%s", t.status().ToString().c_str()); continue; }
          std::vector<std::string> accepted;
          // A run of evictions by one function, by the other, and a mixture.
          if (dir == 2) C().pseudo = true;
          for (int i = 0; i < nb + 4; ++i) {
            auto before = (*t)->GetTable();
            size_t stashed = (*t)->GetStash().size();
            std::string e = F("%d", i < nb ? i : i * 3 + nb);
            C().script.clear();
            C().pos = 0;
            if (dir < 2) C().script.assign(r + 1, dir);
            absl::Status st = (*t)->Insert(e);
            Trans();
            const bool room = i < nb || stash < 0 || (int)stashed < stash;
            if (st.ok() != room) { Fail(room ? "refused-early" : "stash-limit", "relocations %d stash %d, insertion %d: %s", r, stash, i, st.ToString().c_str()); break; }
            if (st.ok()) accepted.push_back(e);
            std::vector<std::string> have((*t)->GetStash().begin(), (*t)->GetStash().end()), want = accepted;
            for (int b = 0; b < nb; ++b)
              if (auto& x = (*t)->GetTable()[b]) {
                have.push_back(*x);
                if (num(*x) % nb != b && (num(*x) + 1) % nb != b) Fail("misplaced", "relocations %d: %s in bucket %d", r, x->c_str(), b);
              }
            std::sort(have.begin(), have.end());
            std::sort(want.begin(), want.end());
            if (have != want) { Fail("lost", "relocations %d stash %d buckets %d, insertion %d (%s): %zu elements, want %zu", r, stash, nb, i, st.ok() ? "accepted" : "refused", have.size(), want.size()); break; }
          }
          State(Hash(F("chain %d %d %d %d", r, stash, nb, dir)));
          Trace();
        }
  if (Case("config")) {
    std::vector<int> nums = {INT32_MIN, -1, 0, 1, 2, 3};
    for (int nb : nums)
      for (int k = 0; k <= 4; ++k)
        for (int r : nums)
          for (int st : nums)
            for (int has = 0; has < 2; ++has) {
              absl::optional<int> l;
              if (has) l = st;
              bool base = nb > 0 && r >= 0 && (!has || st >= 0);
              Setup s{nb, k, r, st};
              auto t = CuckooHashTable::Create(s.Functions(), nb, r, l);
              Trans();
              State(Hash(F("%d %d %d %d %d", nb, k, r, st, has)));
              if (t.ok() != (base && k >= 2)) Fail("config", "buckets %d functions %d relocations %d stash %d/%d: %s", nb, k, r, has, st, t.status().ToString().c_str());
              if (t.ok() && ((int)(*t)->GetTable().size() != nb || (int)(*t)->GetHashFunctions().size() != k)) Fail("size", "wrong number of buckets or functions");
              int made = 0;
              std::vector<std::string> seeds;
              dp::HashFamily fam = [&](absl::string_view seed) -> HashFunction {
                ++made;
                seeds.push_back(std::string(seed));
                return [](absl::string_view, int) { return 0; };
              };
              auto t2 = CuckooHashTable::Create(std::move(fam), nb, k - 1, r, l);
              if (t2.ok() != (base && k - 1 >= 2)) Fail("config", "family: buckets %d functions %d relocations %d stash %d/%d: %s", nb, k - 1, r, has, st, t2.status().ToString().c_str());
              std::set<std::string> distinct(seeds.begin(), seeds.end());
              if (t2.ok() && (made != k - 1 || (int)distinct.size() != k - 1)) Fail("family", "%d functions of %d made, %zu distinct seeds", made, k - 1, distinct.size());
            }
    Trace();
  }
}
