// P02/P03: explicit-state exploration of call histories on evaluation contexts.
// A state is the pair of real contexts of the two parties; transitions are the
// real EvaluateUntil/EvaluateNext (mode incr) and additionally EvaluateAt with
// context (mode mixed). States with identical serialized contexts are merged
// (the context is everything later calls can depend on).
#include <unordered_set>

#include "hier.h"
using namespace vp;

static std::vector<TypeOps> T;
static std::vector<Hier> hiers;
static bool mixed;

struct Node {
  EvaluationContext c[2];
  int prev = -1;        // last evaluated hierarchy level
  int plevel = -1;      // level of the prefixes below (-1: everything available)
  std::vector<u128> prefixes;
  std::string path;
};

// Prefix lists to try, drawn from the candidates (available prefixes).
static std::vector<std::vector<u128>> Menu(const std::vector<u128>& cand, u128 target, size_t max_all) {
  std::vector<std::vector<u128>> m;
  size_t c = cand.size();
  if (c <= max_all) {
    for (uint64_t s = 1; s < (uint64_t{1} << c); ++s) {
      std::vector<u128> l;
      for (size_t i = 0; i < c; ++i)
        if (s >> i & 1) l.push_back(cand[i]);
      m.push_back(l);
    }
    for (u128 a : cand)
      for (u128 b : cand) m.push_back({a, b});
  } else {
    m.push_back(cand);
    m.push_back({cand[0]});
    m.push_back({cand[c - 1]});
    m.push_back({cand[c - 1], cand[0]});
    std::vector<u128> ev, od;
    for (size_t i = 0; i < c; ++i) (i % 2 ? od : ev).push_back(cand[i]);
    m.push_back(ev);
    m.push_back(od);
    bool have = false;
    for (u128 x : cand) have |= x == target;
    if (have) {
      m.push_back({target});
      m.push_back({cand[c / 2], target, cand[c / 2], target});
    }
  }
  std::vector<u128> rev(cand.rbegin(), cand.rend());
  m.push_back(rev);
  std::vector<u128> rot;  // rotated, with a repetition
  for (size_t i = 0; i < c; ++i) rot.push_back(cand[(i + c / 2) % c]);
  rot.push_back(cand[0]);
  m.push_back(rot);
  std::set<std::vector<u128>> uniq;
  std::vector<std::vector<u128>> out;
  for (auto& l : m)
    if (uniq.insert(l).second) out.push_back(l);
  return out;
}

static void Explore(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas, size_t max_all) {
  R().Reset(Hash(h.name) + absl::Uint128Low64(alpha));
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "%s", keys.status().ToString().c_str()); return; }
  // Share memo [party][level] -> per point; filled by fresh full expansion.
  std::vector<Flat> memo[2];
  for (int p = 0; p < 2; ++p)
    for (int l = 0; l < h.size(); ++l) {
      auto ctx = dpf.CreateEvaluationContext(p ? keys->second : keys->first);
      if (!ctx.ok()) { Fail("context-refused", "%s", ctx.status().ToString().c_str()); return; }
      auto r = h.t[l]->until(dpf, l, {}, *ctx);
      if (!r.ok()) { Fail("full-refused", "level %d: %s", l, r.status().ToString().c_str()); return; }
      if (h.t[l]->Size(*r) != int64_t{1} << h.d[l]) { Fail("full-size", "level %d: %lld", l, (long long)h.t[l]->Size(*r)); return; }
      memo[p].push_back(*r);
    }
  auto check = [&](const Node& nd, const char* api, int level, const std::vector<u128>& pts,
                   const absl::StatusOr<Flat>& a, const absl::StatusOr<Flat>& b) {
    const TypeOps& o = *h.t[level];
    std::string at = nd.path + F(" alpha=%s", S(alpha).c_str());
    if (!a.ok() || !b.ok()) {
      Fail(std::string(api) + "-refused", "%s: %s %s", at.c_str(), a.status().ToString().c_str(), b.status().ToString().c_str());
      return false;
    }
    if (o.Size(*a) != (int64_t)pts.size() || o.Size(*b) != (int64_t)pts.size()) {
      Fail(std::string(api) + "-size", "%s: %lld/%lld outputs, want %zu", at.c_str(), (long long)o.Size(*a), (long long)o.Size(*b), pts.size());
      return false;
    }
    u128 target = Shr(alpha, h.last() - h.d[level]);
    for (size_t i = 0; i < pts.size(); ++i) {
      const u128 *pa = &(*a)[i * o.n()], *pb = &(*b)[i * o.n()];
      if (!SumIs(o, pa, pb, pts[i] == target ? betas[level].data() : nullptr)) {
        Fail(std::string(api) + "-sum", "%s: level %d position %zu point %s: %s + %s", at.c_str(), level, i, S(pts[i]).c_str(), Show(pa, o.n()).c_str(), Show(pb, o.n()).c_str());
        return false;
      }
      size_t off = static_cast<size_t>(absl::Uint128Low64(pts[i])) * o.n();
      for (int k = 0; k < o.n(); ++k)
        if (pa[k] != memo[0][level][off + k] || pb[k] != memo[1][level][off + k]) {
          Fail(std::string(api) + "-history", "%s: level %d point %s: share differs from that of full expansion", at.c_str(), level, S(pts[i]).c_str());
          return false;
        }
    }
    Trans(pts.size());
    return true;
  };
  std::vector<Node> stack(1);
  for (int p = 0; p < 2; ++p) stack[0].c[p] = *dpf.CreateEvaluationContext(p ? keys->second : keys->first);
  std::unordered_set<std::string> seen;
  while (!stack.empty()) {
    Node nd = std::move(stack.back());
    stack.pop_back();
    std::string s0 = nd.c[0].SerializeAsString(), s1 = nd.c[1].SerializeAsString();
    if (!seen.insert(s0).second) continue;
    State(Hash(s0, Hash(s1)));
    // Round trip through the wire format in every other state.
    if (seen.size() % 2 == 0) {
      nd.c[0].Clear();
      nd.c[1].Clear();
      if (!nd.c[0].ParseFromString(s0) || !nd.c[1].ParseFromString(s1)) { Fail("reparse", "%s", nd.path.c_str()); return; }
    }
    for (int lev = 0; lev < h.size(); ++lev) {
      // Expansion.
      if (lev > nd.prev) {
        std::vector<std::vector<u128>> menu;
        if (nd.prev < 0) menu.push_back({});
        else {
          std::vector<u128> cand;
          std::set<u128> have(nd.prefixes.begin(), nd.prefixes.end());
          for (u128 x = 0; x < Shl(1, h.d[nd.prev]); ++x)
            if (nd.plevel < 0 || have.count(Shr(x, h.d[nd.prev] - h.d[nd.plevel]))) cand.push_back(x);
          menu = Menu(cand, Shr(alpha, h.last() - h.d[nd.prev]), max_all);
        }
        for (auto& pre : menu) {
          Node n2 = nd;
          n2.path += F("; until(%d,%s)", lev, ShowList(pre).c_str());
          absl::StatusOr<Flat> r[2];
          for (int p = 0; p < 2; ++p)
            r[p] = (lev == nd.prev + 1 && (p ^ (seen.size() & 1))) ? h.t[lev]->next(dpf, pre, n2.c[p])
                                                                  : h.t[lev]->until(dpf, lev, pre, n2.c[p]);
          std::vector<u128> pts;
          if (pre.empty())
            for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) pts.push_back(x);
          else
            for (u128 q : pre)
              for (u128 x = 0; x < Shl(1, h.d[lev] - h.d[nd.prev]); ++x) pts.push_back(Shl(q, h.d[lev] - h.d[nd.prev]) + x);
          Trace(2);
          if (!check(n2, "until", lev, pts, r[0], r[1])) continue;
          if (!pre.empty()) {
            n2.prefixes = pre;
            n2.plevel = nd.prev;
          }
          n2.prev = lev;
          stack.push_back(std::move(n2));
        }
      }
      // Point evaluation through the context.
      if (mixed && lev >= nd.plevel && lev >= nd.prev) {
        std::vector<u128> cand;
        std::set<u128> have(nd.prefixes.begin(), nd.prefixes.end());
        for (u128 x = 0; x < Shl(1, h.d[lev]); ++x)
          if (nd.plevel < 0 || have.count(Shr(x, h.d[lev] - h.d[nd.plevel]))) cand.push_back(x);
        for (auto& pts : Menu(cand, Shr(alpha, h.last() - h.d[lev]), std::min<size_t>(max_all, 2))) {
          Node n2 = nd;
          n2.path += F("; at(%d,%s)", lev, ShowList(pts).c_str());
          absl::StatusOr<Flat> r[2];
          for (int p = 0; p < 2; ++p) r[p] = h.t[lev]->at_ctx(dpf, lev, pts, n2.c[p]);
          Trace(2);
          if (!check(n2, "at_ctx", lev, pts, r[0], r[1])) continue;
          n2.prefixes = pts;
          n2.plevel = lev;
          n2.prev = lev;
          stack.push_back(std::move(n2));
        }
      }
    }
  }
  // Point evaluation of the plain key.
  if (mixed)
    for (int lev = 0; lev < h.size(); ++lev) {
      std::vector<u128> cand;
      for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) cand.push_back(x);
      for (auto& pts : Menu(cand, Shr(alpha, h.last() - h.d[lev]), 3)) {
        Node nd;
        nd.path = F("at(%d,%s)", lev, ShowList(pts).c_str());
        auto a = h.t[lev]->at(dpf, keys->first, lev, pts), b = h.t[lev]->at(dpf, keys->second, lev, pts);
        Trace(2);
        check(nd, "at", lev, pts, a, b);
      }
    }
}

// Long chains on big domains: follow alpha's path (and neighbours) only.
static void Deep(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas) {
  R().Reset(Hash(h.name) + absl::Uint128Low64(alpha) + 9);
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "%s", keys.status().ToString().c_str()); return; }
  int L = h.size();
  // Every subset of levels that contains level 0 .. choose which levels are visited, by bit mask
  // (all masks for short hierarchies, single skips for long ones).
  std::vector<std::vector<int>> routes;
  if (L <= 6) {
    for (int m = 1; m < (1 << L); ++m) {
      std::vector<int> r;
      for (int i = 0; i < L; ++i) if (m >> i & 1) r.push_back(i);
      routes.push_back(r);
    }
  } else {
    std::vector<int> all(L);
    for (int i = 0; i < L; ++i) all[i] = i;
    routes.push_back(all);
    for (int skip = 1; skip < L - 1; skip += 7) {
      auto r = all;
      r.erase(r.begin() + skip);
      routes.push_back(r);
    }
  }
  for (auto& route : routes) {
    if (h.d[route[0]] > 12) continue;
    bool ok = true;
    for (size_t i = 1; i < route.size(); ++i) ok &= h.d[route[i]] - h.d[route[i - 1]] <= 12;
    if (!ok) continue;
    EvaluationContext c[2] = {*dpf.CreateEvaluationContext(keys->first), *dpf.CreateEvaluationContext(keys->second)};
    int prev = -1;
    std::vector<u128> cur;  // available at prev
    for (int lev : route) {
      std::vector<u128> pre;
      if (prev >= 0) {
        // alpha's prefix, its bit-flip at the last bit, an unrelated one, in descending order.
        u128 t = Shr(alpha, h.last() - h.d[prev]);
        std::set<u128> cand;
        for (u128 x : {t, t ^ 1, (t ^ 3) & MaskBits(h.d[prev]), u128{0}})
          for (u128 y : cur) if (x == y) cand.insert(x);
        if (cand.empty()) break;
        pre.assign(cand.rbegin(), cand.rend());
      }
      auto a = h.t[lev]->until(dpf, lev, pre, c[0]), b = h.t[lev]->until(dpf, lev, pre, c[1]);
      Trace(2);
      if (!a.ok() || !b.ok()) { Fail("deep-refused", "level %d alpha %s: %s", lev, S(alpha).c_str(), a.status().ToString().c_str()); return; }
      std::vector<u128> pts;
      if (pre.empty()) for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) pts.push_back(x);
      else for (u128 q : pre) for (u128 x = 0; x < Shl(1, h.d[lev] - h.d[prev]); ++x) pts.push_back(Shl(q, h.d[lev] - h.d[prev]) + x);
      const TypeOps& o = *h.t[lev];
      if (o.Size(*a) != (int64_t)pts.size() || o.Size(*b) != (int64_t)pts.size()) { Fail("deep-size", "level %d", lev); return; }
      u128 target = Shr(alpha, h.last() - h.d[lev]);
      auto at = o.at(dpf, keys->first, lev, pts);
      if (!at.ok()) { Fail("deep-at-refused", "level %d alpha %s: %s", lev, S(alpha).c_str(), at.status().ToString().c_str()); return; }
      for (size_t i = 0; i < pts.size(); ++i)
        if (!SumIs(o, &(*a)[i * o.n()], &(*b)[i * o.n()], pts[i] == target ? betas[lev].data() : nullptr)) {
          Fail("deep-sum", "level %d alpha %s point %s", lev, S(alpha).c_str(), S(pts[i]).c_str());
          return;
        }
      if (*at != *a) { Fail("deep-history", "level %d alpha %s: EvaluateAt differs from expansion", lev, S(alpha).c_str()); return; }
      State(HashFlat(*a, lev));
      Trans(pts.size());
      cur = pts;
      prev = lev;
    }
  }
}

// Many prefixes (points) at once: counts around every batch size of the tree
// walk, in several orders, expanded or evaluated at once.
static void Wide(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas) {
  R().Reset(Hash(h.name) + absl::Uint128Low64(alpha) + 33);
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "%s", keys.status().ToString().c_str()); return; }
  std::vector<Flat> memo[2];
  for (int p = 0; p < 2; ++p)
    for (int l = 0; l < h.size(); ++l) {
      auto ctx = dpf.CreateEvaluationContext(p ? keys->second : keys->first);
      auto r = h.t[l]->until(dpf, l, {}, *ctx);
      if (!r.ok() || h.t[l]->Size(*r) != int64_t{1} << h.d[l]) { Fail("full", "level %d: %s", l, r.status().ToString().c_str()); return; }
      memo[p].push_back(*r);
    }
  for (int l = 0; l < h.size(); ++l) {
    const TypeOps& o = *h.t[l];
    u128 target = Shr(alpha, h.last() - h.d[l]);
    for (u128 x = 0; x < Shl(1, h.d[l]); ++x) {
      size_t i = (size_t)absl::Uint128Low64(x) * o.n();
      if (!SumIs(o, &memo[0][l][i], &memo[1][l][i], x == target ? betas[l].data() : nullptr)) { Fail("wide-sum", "level %d alpha %s point %s", l, S(alpha).c_str(), S(x).c_str()); return; }
    }
  }
  auto same = [&](int p, int l, const std::vector<u128>& pts, const absl::StatusOr<Flat>& r, const std::string& what) {
    const TypeOps& o = *h.t[l];
    if (!r.ok()) { Fail("wide-refused", "%s: %s", what.c_str(), r.status().ToString().c_str()); return false; }
    if (o.Size(*r) != (int64_t)pts.size()) { Fail("wide-size", "%s: %lld for %zu", what.c_str(), (long long)o.Size(*r), pts.size()); return false; }
    for (size_t i = 0; i < pts.size(); ++i)
      if (!std::equal(r->begin() + i * o.n(), r->begin() + (i + 1) * o.n(), memo[p][l].begin() + (size_t)absl::Uint128Low64(pts[i]) * o.n())) {
        Fail("wide-history", "%s: position %zu point %s", what.c_str(), i, S(pts[i]).c_str());
        return false;
      }
    Trans(pts.size());
    Trace();
    State(HashFlat(*r, l));
    return true;
  };
  std::vector<size_t> counts = {1, 2, 3, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 500, 512, 513, 1000, 1024};
  // counts beyond 12- to 16-bit indices
  if (h.d[0] == 9) counts.insert(counts.end(), {2049, 4097, 20000, 65537});
  if (h.d[0] >= 17) counts = {4097, 32769, 65535, 65536, 65537, 100000};
  for (int l = 0; l < h.size(); ++l) {
    const u128 n = Shl(1, h.d[l]);
    const u128 target = Shr(alpha, h.last() - h.d[l]);
    for (size_t cnt : counts)
      for (int order = 0; order < 5; ++order) {
        // 0: increasing, 1: decreasing, 2: spread and shuffled, 3: shuffled with repetitions, 4: sorted with neighbours repeated
        std::vector<u128> pre;
        for (size_t i = 0; i < cnt; ++i) {
          if (order < 2) pre.push_back(i);
          if (order == 2) pre.push_back(u128{i} * 4099 + 17);
          if (order == 3) pre.push_back(u128{Mix(i * 7 + cnt) % (cnt + 3)} * 3);
          if (order == 4) pre.push_back(u128{i / 2});
        }
        for (auto& x : pre) x %= n;
        if (order == 1) std::reverse(pre.begin(), pre.end());
        pre[cnt / 2] = target;
        std::set<u128> distinct(pre.begin(), pre.end());
        if (order < 3 && distinct.size() + 1 < cnt) continue;
        std::string what = F("alpha %s level %d: %zu points, order %d", S(alpha).c_str(), l, cnt, order);
        for (int p = 0; p < 2; ++p) {
          const DpfKey& k = p ? keys->second : keys->first;
          auto ctx = dpf.CreateEvaluationContext(k);
          if (mixed) {
            if (!same(p, l, pre, h.t[l]->at(dpf, k, l, pre), what + " at")) return;
            auto c2 = *ctx;
            if (!same(p, l, pre, h.t[l]->at_ctx(dpf, l, pre, c2), what + " at_ctx")) return;
            if (l + 1 < h.size()) {
              // Go on from the evaluated points, at other points and by expansion.
              std::vector<u128> pts;
              int g = h.d[l + 1] - h.d[l];
              for (size_t i = 0; i < cnt; ++i) pts.push_back(Shl(pre[(i * 5) % cnt], g) + (i % (1u << g)));
              auto c3 = c2;
              if (!same(p, l + 1, pts, h.t[l + 1]->at_ctx(dpf, l + 1, pts, c3), what + " at_ctx, at_ctx")) return;
              pts.clear();
              for (u128 q : pre)
                for (u128 x = 0; x < Shl(1, g); ++x) pts.push_back(Shl(q, g) + x);
              if (!same(p, l + 1, pts, h.t[l + 1]->until(dpf, l + 1, pre, c2), what + " at_ctx, until")) return;
            }
          }
          if (l + 1 == h.size()) continue;
          auto c4 = *ctx;
          if (!h.t[l]->until(dpf, l, {}, c4).ok()) { Fail("wide-refused", "%s", what.c_str()); return; }
          for (int to = l + 1; to < h.size(); ++to) {
            int g = h.d[to] - h.d[l];
            std::vector<u128> pts;
            for (u128 q : pre)
              for (u128 x = 0; x < Shl(1, g); ++x) pts.push_back(Shl(q, g) + x);
            auto c5 = c4;
            if (!same(p, to, pts, h.t[to]->until(dpf, to, pre, c5), what + F(" until %d", to))) return;
            if (to + 1 < h.size()) {
              // A second step from part of those.
              std::vector<u128> some, pts2;
              for (size_t i = 0; i < pts.size(); i += 1 + pts.size() / (cnt + 1)) some.push_back(pts[(i * 7) % pts.size()]);
              int g2 = h.d[to + 1] - h.d[to];
              for (u128 q : some)
                for (u128 x = 0; x < Shl(1, g2); ++x) pts2.push_back(Shl(q, g2) + x);
              if (!same(p, to + 1, pts2, h.t[to + 1]->until(dpf, to + 1, some, c5), what + F(" until %d, until %d", to, to + 1))) return;
            }
          }
        }
      }
  }
}

// Gaps too wide to expand: every pair of calls on points chosen around alpha.
// A share must be the one that a single-point EvaluateAt on the key gives.
static void Far(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas) {
  R().Reset(Hash(h.name) + absl::Uint128Low64(alpha) + 21);
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "%s", keys.status().ToString().c_str()); return; }
  std::map<std::pair<int, u128>, std::pair<Flat, Flat>> memo;
  bool bad = false;
  auto check = [&](const std::string& path, int lev, const std::vector<u128>& pts, const absl::StatusOr<Flat>& a,
                   const absl::StatusOr<Flat>& b) {
    const TypeOps& o = *h.t[lev];
    Trace(2);
    if (!a.ok() || !b.ok()) {
      Fail("far-refused", "%s alpha %s: %s %s", path.c_str(), S(alpha).c_str(), a.status().ToString().c_str(), b.status().ToString().c_str());
      return bad = true, false;
    }
    if (o.Size(*a) != (int64_t)pts.size() || o.Size(*b) != (int64_t)pts.size()) { Fail("far-size", "%s alpha %s", path.c_str(), S(alpha).c_str()); return bad = true, false; }
    u128 target = Shr(alpha, h.last() - h.d[lev]);
    for (size_t i = 0; i < pts.size(); ++i) {
      const u128 *pa = &(*a)[i * o.n()], *pb = &(*b)[i * o.n()];
      if (!SumIs(o, pa, pb, pts[i] == target ? betas[lev].data() : nullptr)) {
        Fail("far-sum", "%s: alpha %s level %d point %s", path.c_str(), S(alpha).c_str(), lev, S(pts[i]).c_str());
        return bad = true, false;
      }
      auto& m = memo[{lev, pts[i]}];
      if (m.first.empty()) {
        auto x = o.at(dpf, keys->first, lev, {pts[i]}), y = o.at(dpf, keys->second, lev, {pts[i]});
        if (!x.ok() || !y.ok()) { Fail("far-at-refused", "level %d point %s: %s", lev, S(pts[i]).c_str(), x.status().ToString().c_str()); return bad = true, false; }
        m = {*x, *y};
      }
      if (!std::equal(m.first.begin(), m.first.end(), pa) || !std::equal(m.second.begin(), m.second.end(), pb)) {
        Fail("far-history", "%s: alpha %s level %d point %s: share differs from that of a single EvaluateAt", path.c_str(), S(alpha).c_str(), lev, S(pts[i]).c_str());
        return bad = true, false;
      }
    }
    Trans(pts.size());
    return true;
  };
  // Extensions of the point q at level `from` (-1: the root) to level `to`.
  auto bits = [&](int l) { return l < 0 ? 0 : h.d[l]; };
  auto extend = [&](u128 q, int from, int to) {
    int g = bits(to) - bits(from);
    u128 t = Shr(alpha, h.last() - h.d[to]) & MaskBits(g), base = Shl(q, g);
    std::vector<u128> v;
    for (u128 e : {t, t ^ 1, u128{0}, MaskBits(g), t ^ (g ? Shl(1, g - 1) : u128{0}), t ^ (g > 64 ? Shl(1, 64) : u128{0})}) {
      u128 x = base | (e & MaskBits(g));
      if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
    }
    return v;
  };
  std::vector<Node> stack(1);
  for (int p = 0; p < 2; ++p) stack[0].c[p] = *dpf.CreateEvaluationContext(p ? keys->second : keys->first);
  while (!stack.empty() && !bad) {
    Node nd = std::move(stack.back());
    stack.pop_back();
    State(Hash(nd.c[0].SerializeAsString(), Hash(nd.c[1].SerializeAsString())));
    for (int lev = std::max(0, nd.plevel); lev < h.size() && !bad; ++lev) {
      if (lev < nd.prev) continue;
      std::vector<std::vector<u128>> lists;
      std::vector<u128> have = nd.plevel < 0 ? std::vector<u128>{0} : nd.prefixes, all;
      for (u128 q : have)
        for (u128 x : extend(q, nd.plevel, lev)) all.push_back(x);
      lists.push_back({all[0]});
      lists.push_back(all);
      lists.push_back({all.rbegin(), all.rend()});
      for (size_t keep = 0; keep < lists.size(); ++keep) {
        Node n2 = nd;
        n2.path += F("; at(%d,%s)", lev, ShowList(lists[keep]).c_str());
        absl::StatusOr<Flat> r[2];
        for (int p = 0; p < 2; ++p) r[p] = h.t[lev]->at_ctx(dpf, lev, lists[keep], n2.c[p]);
        if (!check(n2.path, lev, lists[keep], r[0], r[1])) break;
        n2.prefixes = lists[keep];
        n2.plevel = n2.prev = lev;
        if (lev > nd.prev && lists[keep].size() <= 12) stack.push_back(std::move(n2));
      }
      // Adjacent points that differ in one bit only, for every bit, in both orders.
      int g = bits(lev) - bits(nd.plevel);
      for (int k = 0; k < g && !bad; ++k)
        for (u128 q : {all.front(), all.back()})
          for (int order = 0; order < 2 && !bad; ++order) {
            std::vector<u128> pts = {q, q ^ Shl(1, k)};
            if (order) std::swap(pts[0], pts[1]);
            Node n2 = nd;
            n2.path += F("; at(%d,%s)", lev, ShowList(pts).c_str());
            absl::StatusOr<Flat> r[2];
            for (int p = 0; p < 2; ++p)
              r[p] = nd.plevel < 0 && nd.prev < 0 ? h.t[lev]->at(dpf, p ? keys->second : keys->first, lev, pts)
                                                  : h.t[lev]->at_ctx(dpf, lev, pts, n2.c[p]);
            check(n2.path, lev, pts, r[0], r[1]);
          }
      // Expansion, where the outputs are few enough.
      if (lev > nd.prev && bits(lev) - bits(nd.prev) <= 6 && (nd.prev < 0) == (nd.plevel < 0)) {
        Node n2 = nd;
        std::vector<u128> pre = nd.prev < 0 ? std::vector<u128>{} : nd.prefixes, pts;
        for (u128 q : nd.prev < 0 ? std::vector<u128>{0} : nd.prefixes)
          for (u128 x = 0; x < Shl(1, bits(lev) - bits(nd.prev)); ++x) pts.push_back(Shl(q, bits(lev) - bits(nd.prev)) + x);
        n2.path += F("; until(%d,%s)", lev, ShowList(pre).c_str());
        absl::StatusOr<Flat> r[2];
        for (int p = 0; p < 2; ++p) r[p] = h.t[lev]->until(dpf, lev, pre, n2.c[p]);
        if (!check(n2.path, lev, pts, r[0], r[1])) break;
        n2.prev = lev;
        // Follow alpha's extension and two others of what the call made available.
        u128 t = Shr(alpha, h.last() - h.d[lev]);
        n2.prefixes.clear();
        for (u128 x : {t, t ^ 1, pts.back()})
          if (std::find(pts.begin(), pts.end(), x) != pts.end() && std::find(n2.prefixes.begin(), n2.prefixes.end(), x) == n2.prefixes.end()) n2.prefixes.push_back(x);
        n2.plevel = lev;
        stack.push_back(std::move(n2));
      }
    }
  }
}

void VpRun() {
  mixed = Mode("mixed");
  T = {MakeOps<uint8_t>(), MakeOps<uint16_t>(), MakeOps<uint32_t>(), MakeOps<uint64_t>(), MakeOps<u128>(),
       MakeOps<dp::Tuple<uint32_t, uint64_t>>(), MakeOps<dp::IntModN<uint32_t, 4294967291u>>(),
       MakeOps<dp::XorWrapper<uint8_t>>()};
  auto assign = [&](std::vector<int> d, int pattern) {
    static const int pats[][4] = {{0, 0, 0, 0}, {4, 4, 4, 4}, {2, 2, 2, 2}, {3, 0, 4, 1}, {4, 0, 1, 3}, {0, 4, 0, 4},
                                  {5, 0, 6, 2}, {7, 6, 0, 5}, {1, 1, 1, 1}, {3, 3, 3, 3}, {0, 1, 2, 3}, {6, 7, 5, 0}};
    Hier h;
    h.d = d;
    for (size_t i = 0; i < d.size(); ++i) h.t.push_back(&T[pats[pattern][i % 4]]);
    h.name = HierName(h);
    return h;
  };
  const int npat = mixed ? Pick(6, 12) : Pick(8, 12);
  std::vector<std::vector<int>> shapes = IncreasingSeqs(0, 4, 1, 4);
  for (auto v : std::vector<std::vector<int>>{{1, 3, 5}, {2, 5}, {3, 6}, {2, 4, 6}, {1, 5, 6}, {4, 5, 6}, {3, 4, 5, 6}, {0, 6}, {2, 7}, {5, 7}, {1, 2, 3, 4, 5}})
    shapes.push_back(v);
  if (Thorough())
    for (auto v : std::vector<std::vector<int>>{{1, 2, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5}, {3, 8}, {4, 6, 8}, {6, 7, 8}, {7, 8}, {1, 4, 8}, {2, 4, 6, 8}})
      shapes.push_back(v);
  for (auto& d : shapes)
    for (int pat = 0; pat < npat; ++pat) {
      Hier h = assign(d, pat);
      bool big = d.back() > 4;
      for (u128 alpha = 0; alpha < Shl(1, d.back()); ++alpha) {
        if (d.back() > (mixed ? 3 : 5) && !Thorough() && (absl::Uint128Low64(alpha) * 7 + 3) % 5 > (mixed ? 0u : 1u)) continue;  // quick: a fixed part of the alphas
        if (!Case(F("%s/%s/a%s", mixed ? "mixed" : "incr", h.name.c_str(), S(alpha).c_str()))) continue;
        auto dpf = MakeDpf(h);
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        Explore(h, **dpf, alpha, HierBetas(h, static_cast<int>(absl::Uint128Low64(alpha) % 3)),
                big || h.size() >= 4 ? Pick(2, 3) : Pick(mixed ? 3 : 4, 4));
        if (alpha == 1) Sample(F("hierarchy %s alpha 1: all call histories", h.name.c_str()));
      }
    }
  // Deep hierarchies.
  std::vector<std::vector<int>> deep = {{10, 20, 30, 40}, {8, 9, 12, 20, 31, 33}, {5, 11, 17, 62, 63, 64}, {12, 24, 36, 48, 60, 70}, {0, 1, 12, 13, 14}};
  std::vector<int> all128(128), even(32), all40(40);
  for (int i = 0; i < 128; ++i) all128[i] = i + 1;
  for (int i = 0; i < 32; ++i) even[i] = 4 * (i + 1);
  for (int i = 0; i < 40; ++i) all40[i] = i;
  deep.push_back(all128);
  deep.push_back(even);
  deep.push_back(all40);
  for (auto& d : deep)
    for (int pat = 0; pat < npat; ++pat) {
      Hier h = assign(d, pat);
      u128 top = MaskBits(d.back());
      u128 p5 = absl::MakeUint128(0x5555555555555555ull, 0x5555555555555555ull);
      for (u128 alpha : {u128{0}, u128{1}, top, top - 1, p5 & top, (p5 << 1) & top, absl::MakeUint128(Mix(pat), Mix(d.back())) & top}) {
        if (!Case(F("deep/%zu.%d.%s/p%d/a%s", d.size(), d.back(), mixed ? "m" : "i", pat, S(alpha).c_str()))) continue;
        auto dpf = MakeDpf(h);
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        Deep(h, **dpf, alpha, HierBetas(h));
      }
    }
  // Many prefixes or points at once.
  for (auto& d : Pick(std::vector<std::vector<int>>{{9, 11}, {6, 10, 12}, {10, 11, 12, 14}, {17, 18}}, std::vector<std::vector<int>>{{9, 11}, {6, 10, 12}, {10, 11, 12, 14}, {11, 12}, {8, 9, 10}, {12, 13, 15}, {17, 18}, {18, 19, 20}}))
    for (int pat : {1, 0, 2, 7, 9, 11}) {
      Hier h = assign(d, pat);
      for (u128 alpha : {u128{0}, MaskBits(d.back()), u128{0x2d5b7} & MaskBits(d.back())}) {
        if (!Thorough() && pat != 1 && alpha == 0) continue;
        if (!Thorough() && d[0] >= 17 && (pat > 1 || alpha == 0)) continue;
        if (!Case(F("wide/%s/a%s", h.name.c_str(), S(alpha).c_str()))) continue;
        auto dpf = MakeDpf(h);
        if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
        Wide(h, **dpf, alpha, HierBetas(h));
        if (alpha == 0 && pat == 1) Sample(F("hierarchy %s: 1 to 1024 prefixes at once in 5 orders", h.name.c_str()));
      }
    }
  // Wide gaps, crossed by point evaluation on a context.
  if (mixed) {
    std::vector<std::vector<int>> wide = {{2, 80, 82}, {4, 72}, {1, 70, 128}, {0, 64, 128}, {3, 66, 67}, {12, 128}, {1, 2, 3, 100}, {5, 69, 70, 127}};
    if (Thorough())
      for (auto v : std::vector<std::vector<int>>{{0, 63}, {0, 65}, {1, 64, 65}, {0, 128}, {63, 64, 128}, {64, 127, 128}, {7, 8, 71, 73}, {10, 30, 60, 90, 120}})
        wide.push_back(v);
    for (auto& d : wide)
      for (int pat = 0; pat < npat; ++pat) {
        Hier h = assign(d, pat);
        u128 top = MaskBits(d.back());
        u128 p5 = absl::MakeUint128(0x5555555555555555ull, 0x5555555555555555ull);
        for (u128 alpha : {u128{0}, top, p5 & top, absl::MakeUint128(Mix(pat), Mix(d.back())) & top}) {
          if (!Case(F("far/%s/a%s", h.name.c_str(), S(alpha).c_str()))) continue;
          auto dpf = MakeDpf(h);
          if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
          Far(h, **dpf, alpha, HierBetas(h));
          if (alpha == top && pat == 0) Sample(F("wide gaps %s alpha %s", h.name.c_str(), S(alpha).c_str()));
        }
      }
  }
}
