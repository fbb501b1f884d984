// P09: malformed DPF parameters, keys, contexts, values and requests.
// Oracle: an independent statement of what a well-formed message is, and the
// reference construction evaluated on whatever well-formed key is left after a
// change. Run under AddressSanitizer/UBSan with CHECKs on.
#include "hier.h"
#include "mutate.h"
#include "ref_dpf.h"
#include "wellformed.h"
using namespace vp;
using dp::Tuple;
using dp::XorWrapper;
using dp::ValueType;

namespace {
using M32 = dp::IntModN<u32, 4294967291u>;
using M64 = dp::IntModN<u64, 1000000007ull>;
using M64b = dp::IntModN<u64, 998244353ull>;

std::vector<TypeOps>& Types() {
  static std::vector<TypeOps>* v = new std::vector<TypeOps>{
      MakeOps<u8>(),                      // 0
      MakeOps<u32>(),                     // 1
      MakeOps<u64>(),                     // 2
      MakeOps<u128>(),                    // 3
      MakeOps<XorWrapper<u64>>(),         // 4
      MakeOps<XorWrapper<u128>>(),        // 5
      MakeOps<M64>(),                     // 6
      MakeOps<M64b>(),                    // 7
      MakeOps<Tuple<u32, u64>>(),         // 8
      MakeOps<Tuple<u64, u128>>(),        // 9
      MakeOps<Tuple<u64, u64>>(),         // 10
      MakeOps<Tuple<M32, M32>>(),         // 11
      MakeOps<Tuple<u8, Tuple<u16, XorWrapper<u8>>>>(),  // 12
  };
  return *v;
}
const TypeOps* T(int i) { return &Types()[i]; }

std::vector<Hier> Hiers() {
  std::vector<Hier> v;
  auto add = [&](std::vector<int> d, std::vector<int> t) {
    Hier h;
    h.d = d;
    for (int x : t) h.t.push_back(T(x));
    h.name = HierName(h);
    v.push_back(h);
  };
  add({3}, {2});
  add({2, 4, 6}, {0, 1, 3});
  add({0, 3}, {8, 6});
  add({1, 2}, {12, 4});
  add({2, 4}, {11, 5});
  add({1, 5, 9}, {3, 9, 0});
  add({0}, {3});
  add({8}, {0});
  add({2, 7}, {10, 7});
  return v;
}

std::vector<u128> Points(int d, int max_n) {
  std::vector<u128> v;
  u128 n = d < 20 ? u128{1} << d : u128{1} << 20;
  for (u128 x = 0; x < n && (int)v.size() < max_n; ++x) v.push_back(x);
  v.push_back(MaskBits(d));
  return v;
}

Spec SpecAt(const Hier& h, const RefDpf& m, const KeyInfo& k, int lev, absl::Span<const u128> pts) {
  Spec s;
  if (!k.ok || lev < 0 || lev >= h.size()) return s;
  for (u128 p : pts)
    if (p > MaskBits(h.d[lev])) return s;
  if (!pts.empty() && !k.level_ok[lev]) return s;
  s.what = kValue;
  for (u128 p : pts) {
    Flat f = WalkFrom(m, k, k.ref.seed[0], k.party, 0, lev, p);
    s.value.insert(s.value.end(), f.begin(), f.end());
  }
  return s;
}

// ---------------------------------------------------------------- keys
void TryKey(const Hier& h, const RefDpf& m, Dpf& dpf, const DpfKey& key, const DpfKey& good, const std::string& what) {
  KeyInfo k = Classify(h, m, key);
  State(Hash(key.SerializeAsString()));
  Trace();
  auto ctx = dpf.CreateEvaluationContext(key);
  if (ctx.ok() != k.ok) Fail(k.ok ? "context-refused" : "context-accepted", "%s: %s", what.c_str(), ctx.status().ToString().c_str());
  for (int lev = 0; lev < h.size(); ++lev) {
    const TypeOps& o = *h.t[lev];
    auto pts = Points(h.d[lev], 5);
    Judge("at", what + F(" level %d", lev), SpecAt(h, m, k, lev, pts), o.at(dpf, key, lev, pts));
    if (ctx.ok()) {
      EvaluationContext c = *ctx;
      Judge("at-ctx", what + F(" level %d", lev), SpecAt(h, m, k, lev, pts), o.at_ctx(dpf, lev, pts, c));
      c = *ctx;
      std::vector<u128> all;
      for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) all.push_back(x);
      Judge("until", what + F(" level %d", lev), SpecAt(h, m, k, lev, all), o.until(dpf, lev, {}, c));
    }
  }
  // In a batch with a good key.
  bool same = true;
  for (auto* t : h.t) same &= t == h.t[0];
  const TypeOps& o = *h.t[0];
  for (int pos = 0; pos < 2; ++pos) {
    const DpfKey* ks[2] = {pos ? &good : &key, pos ? &key : &good};
    std::vector<u128> pts = {MaskBits(h.last()), 0};
    int calls = 0;
    std::vector<Flat> got;
    auto st = o.apply(dpf, absl::MakeConstSpan(ks, 2), pts, [&](Flat f) { got.push_back(f); return same; }, 0);
    KeyInfo gk = Classify(h, m, good);
    Spec s;
    if (k.ok) {
      bool ok = true;
      for (int lev = 0; lev < (same ? h.size() : 1); ++lev) {
        if (!k.level_ok[lev]) ok = false;
        if (!ok) break;
        ++calls;
        for (int i = 0; i < 2; ++i) {
          u128 p = Shr(pts[i], h.last() - h.d[lev]);
          Flat f = WalkFrom(m, i == pos ? k : gk, (i == pos ? k : gk).ref.seed[0], (i == pos ? k : gk).party, 0, lev, p);
          s.value.insert(s.value.end(), f.begin(), f.end());
        }
      }
      if (ok) s.what = kValue;
    }
    Flat all_got;
    for (auto& g : got) all_got.insert(all_got.end(), g.begin(), g.end());
    absl::StatusOr<Flat> r(all_got);
    if (!st.ok()) r = st;
    Judge("apply", what, s, r);
    if (!k.ok && !got.empty()) Fail("apply-called", "%s: function called although a key is malformed", what.c_str());
  }
}

std::pair<DpfKey, DpfKey> GoodKeys(const Hier& h, Dpf& dpf, uint64_t seed = 3) {
  R().Reset(seed);
  auto k = HierKeys(h, dpf, MaskBits(h.last()) & 0x5a5a, HierBetas(h));
  if (!k.ok()) {
    Fail("keygen", "%s: %s", h.name.c_str(), k.status().ToString().c_str());
    return {};
  }
  return *k;
}
RefDpf Model(const Hier& h) { return RefDpf(h.d, h.t); }

void Keys() {
  auto hs = Hiers();
  for (size_t hi = 0; hi < hs.size(); ++hi) {
    Hier& h = hs[hi];
    for (int party = 0; party < 2; ++party) {
      auto dpf = MakeDpf(h);
      if (!dpf.ok()) {
        if (Case("make/" + h.name)) Fail("create", "%s", dpf.status().ToString().c_str());
        continue;
      }
      RefDpf m = Model(h);
      auto pair = GoodKeys(h, **dpf);
      DpfKey good = party ? pair.second : pair.first;
      Mutator mu;
      auto muts = mu.Of(good);
      // Every single change (and none).
      for (size_t base = 0; base <= muts.size(); base += 24) {
        if (!Case(F("key/%s/p%d/%zu", h.name.c_str(), party, base))) continue;
        if (base == 0) TryKey(h, m, **dpf, good, good, "unchanged");
        for (size_t i = base; i < std::min(base + 24, muts.size()); ++i) {
          DpfKey k = good;
          muts[i].apply(&k);
          TryKey(h, m, **dpf, k, good, muts[i].what);
        }
      }
      // Every pair of changes (the second one among those of the changed key).
      if (party == 1 && !Thorough()) continue;
      if (hi > 2 && !Thorough()) continue;
      mu.adjust = false;
      mu.head = 1;
      auto muts1 = mu.Of(good);
      for (size_t i = 0; i < muts1.size(); ++i) {
        if (!Thorough() && i % 2) continue;
        if (!Case(F("key2/%s/p%d/%zu", h.name.c_str(), party, i))) continue;
        DpfKey k1 = good;
        muts1[i].apply(&k1);
        auto muts2 = mu.Of(k1);
        for (size_t j = 0; j < muts2.size(); ++j) {
          DpfKey k = k1;
          muts2[j].apply(&k);
          TryKey(h, m, **dpf, k, good, muts1[i].what + " + " + muts2[j].what);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- contexts
// Canonical form of a value type; empty if it is not a type at all.
std::string TypeKey(const ValueType& t) {
  switch (t.type_case()) {
    case ValueType::kInteger: return F("i%d", t.integer().bitsize());
    case ValueType::kXorWrapper: return F("x%d", t.xor_wrapper().bitsize());
    case ValueType::kIntModN: {
      u128 n;
      if (!GetInt(t.int_mod_n().modulus(), &n)) return "";
      return F("m%d:", t.int_mod_n().base_integer().bitsize()) + S(n);
    }
    case ValueType::kTuple: {
      std::string s = "(";
      for (auto& e : t.tuple().elements()) {
        std::string k = TypeKey(e);
        if (k.empty()) return "";
        s += k + ",";
      }
      return s + ")";
    }
    default: return "";
  }
}
struct CtxInfo {
  bool ok = false;     // usable for point evaluation
  bool done = false;   // evaluated on the last level
  bool any = false;    // no statement made
  KeyInfo key;
  std::map<u128, std::pair<u128, bool>> partials;
  bool dup = false;
};
CtxInfo ClassifyCtx(const Hier& h, const RefDpf& m, Dpf& dpf, const EvaluationContext& c) {
  CtxInfo r;
  if (c.parameters_size() != h.size()) return r;
  for (int i = 0; i < h.size(); ++i) {
    const DpfParameters &a = dpf.parameters()[i], &b = c.parameters(i);
    if (b.log_domain_size() != a.log_domain_size() || TypeKey(a.value_type()) != TypeKey(b.value_type())) return r;
    double sec = b.security_parameter() == 0 ? 40 + h.d[i] : b.security_parameter();
    if (!(std::abs(sec - a.security_parameter()) <= 0.0001)) return r;
  }
  if (!c.has_key()) return r;
  r.key = Classify(h, m, c.key());
  if (!r.key.ok) return r;
  if (c.previous_hierarchy_level() >= h.size()) return r;
  if (c.partial_evaluations_size() > 0 &&
      (c.partial_evaluations_level() < 0 || c.partial_evaluations_level() > c.previous_hierarchy_level()))
    return r;
  if (c.previous_hierarchy_level() < -1) r.any = true;
  r.ok = true;
  r.done = c.previous_hierarchy_level() == h.size() - 1;
  for (auto& p : c.partial_evaluations()) {
    u128 pre = absl::MakeUint128(p.prefix().high(), p.prefix().low());
    auto v = std::make_pair(absl::MakeUint128(p.seed().high(), p.seed().low()), p.control_bit());
    auto it = r.partials.emplace(pre, v);
    if (it.first->second != v) r.dup = true;
  }
  return r;
}
// Where the walk to domain point p of level `lev` starts. False: refused.
bool Start(const RefDpf& m, const CtxInfo& ci, const EvaluationContext& c, int lev, u128 p, u128* s, bool* ctl, int* from) {
  if (!ci.partials.empty()) {
    int pl = m.tree[c.partial_evaluations_level()];
    if (pl <= m.tree[lev]) {
      if (ci.dup) return false;
      u128 t = Shr(p, m.d[lev] - m.tree[lev]);
      auto it = ci.partials.find(Shr(t, m.tree[lev] - pl));
      if (it == ci.partials.end()) return false;
      *s = it->second.first;
      *ctl = it->second.second;
      *from = pl;
      return true;
    }
  }
  *s = ci.key.ref.seed[0];
  *ctl = ci.key.party;
  *from = 0;
  return true;
}
Spec SpecUntil(const Hier& h, const RefDpf& m, const CtxInfo& ci, const EvaluationContext& c, int lev,
               const std::vector<u128>& prefixes) {
  Spec s;
  if (!ci.ok || ci.done) return s;
  if (ci.any) { s.what = kAny; return s; }
  int prev = c.previous_hierarchy_level();
  if (lev < 0 || lev >= h.size() || lev <= prev) return s;
  if ((prev < 0) != prefixes.empty()) return s;
  for (u128 p : prefixes)
    if (p > MaskBits(h.d[prev])) return s;
  int gap = h.d[lev] - (prev < 0 ? 0 : h.d[prev]);
  if (gap >= 62) return s;
  if (!ci.key.level_ok[lev]) return s;
  std::vector<u128> pre = prefixes;
  if (prev < 0) pre = {0};
  for (u128 p : pre) {
    u128 st = ci.key.ref.seed[0];
    bool ctl = ci.key.party;
    int from = 0;
    if (prev >= 0 && !Start(m, ci, c, prev, p, &st, &ctl, &from)) return s;
    for (u128 e = 0; e < Shl(1, gap); ++e) {
      u128 x = prev < 0 ? e : Shl(p, gap) | e;
      // The stored seed covers the tree path below its own prefix only.
      Flat f = WalkFrom(m, ci.key, st, ctl, from, lev, x);
      s.value.insert(s.value.end(), f.begin(), f.end());
    }
  }
  s.what = kValue;
  return s;
}
Spec SpecAtCtx(const Hier& h, const RefDpf& m, const CtxInfo& ci, const EvaluationContext& c, int lev,
               const std::vector<u128>& pts) {
  Spec s;
  if (!ci.ok) return s;
  if (ci.any) { s.what = kAny; return s; }
  if (lev < 0 || lev >= h.size()) return s;
  for (u128 p : pts)
    if (p > MaskBits(h.d[lev])) return s;
  s.what = kValue;
  if (pts.empty()) return s;
  if (!ci.key.level_ok[lev]) return Spec();
  for (u128 p : pts) {
    u128 st;
    bool ctl;
    int from;
    if (!Start(m, ci, c, lev, p, &st, &ctl, &from)) return Spec();
    Flat f = WalkFrom(m, ci.key, st, ctl, from, lev, p);
    s.value.insert(s.value.end(), f.begin(), f.end());
  }
  return s;
}

// Contexts after a few short histories.
std::vector<std::pair<std::string, EvaluationContext>> Histories(const Hier& h, Dpf& dpf, const DpfKey& key) {
  std::vector<std::pair<std::string, EvaluationContext>> v;
  auto c0 = dpf.CreateEvaluationContext(key);
  if (!c0.ok()) return v;
  v.push_back({"fresh", *c0});
  EvaluationContext c = *c0;
  std::vector<u128> pre;
  for (int lev = 0; lev < h.size(); ++lev) {
    if (!h.t[lev]->until(dpf, lev, pre, c).ok()) break;
    v.push_back({F("until%d", lev), c});
    pre = {0, MaskBits(h.d[lev])};
    if (h.d[lev] == 0) pre = {0};
  }
  for (int lev = 0; lev < h.size(); ++lev) {
    c = *c0;
    std::vector<u128> pts = {0, MaskBits(h.d[lev]), MaskBits(h.d[lev]) / 2};
    if (!h.t[lev]->at_ctx(dpf, lev, pts, c).ok()) break;
    v.push_back({F("at%d", lev), c});
    if (lev + 1 < h.size()) {
      std::vector<u128> p2 = {0, MaskBits(h.d[lev])};
      if (h.t[lev + 1]->until(dpf, lev + 1, p2, c).ok()) v.push_back({F("at%d-until%d", lev, lev + 1), c});
    }
  }
  return v;
}

// All requests that are tried on a context.
struct Req {
  bool at;
  int lev;
  std::vector<u128> pts;
};
std::vector<Req> Requests(const Hier& h, bool bad) {
  std::vector<Req> v;
  for (int lev = 0; lev < h.size(); ++lev) {
    u128 m = MaskBits(h.d[lev]);
    v.push_back({true, lev, {0, m}});
    v.push_back({false, lev, {}});
    for (int prev = 0; prev < lev; ++prev) {
      u128 pm = MaskBits(h.d[prev]);
      v.push_back({false, lev, {0, pm}});
      if (bad) v.push_back({false, lev, {pm, 0, pm}});
      if (bad && h.d[prev] < 128) v.push_back({false, lev, {0, pm + 1}});
      if (bad && h.d[prev] > 1) v.push_back({false, lev, {1}});
    }
    if (bad) {
      v.push_back({true, lev, {}});
      if (h.d[lev] < 128) v.push_back({true, lev, {0, m + 1}});
      v.push_back({true, lev, {~u128{0}}});
      v.push_back({true, lev, {m / 2}});
    }
  }
  if (bad)
    for (int lev : {-1, -2, h.size(), h.size() + 1, 1 << 30, INT32_MIN, INT32_MAX}) {
      v.push_back({true, lev, {0}});
      v.push_back({false, lev, {}});
      v.push_back({false, lev, {0}});
    }
  return v;
}
void TryCtx(const Hier& h, const RefDpf& m, Dpf& dpf, const EvaluationContext& c0, const std::vector<Req>& reqs, const std::string& what) {
  CtxInfo ci = ClassifyCtx(h, m, dpf, c0);
  State(Hash(c0.SerializeAsString()));
  Trace();
  for (const Req& q : reqs) {
    const TypeOps& o = *h.t[q.lev >= 0 && q.lev < h.size() ? q.lev : 0];
    EvaluationContext c = c0;
    std::string w = what + F("; %s(level %d, %s)", q.at ? "EvaluateAt" : "EvaluateUntil", q.lev, ShowList(q.pts).c_str());
    if (q.at) {
      Judge("at-ctx", w, SpecAtCtx(h, m, ci, c0, q.lev, q.pts), o.at_ctx(dpf, q.lev, q.pts, c));
    } else {
      auto r = o.until(dpf, q.lev, q.pts, c);
      Spec sp = SpecUntil(h, m, ci, c0, q.lev, q.pts);
      Judge("until", w, sp, r);
      bool arg = !(ci.ok && q.lev >= 0 && q.lev < h.size() && !ci.key.level_ok[q.lev]);
      if (!r.ok() && arg && c.SerializeAsString() != c0.SerializeAsString())
        Fail("context-changed", "%s: refused, but the context changed", w.c_str());
    }
  }
}
void Contexts() {
  auto hs = Hiers();
  for (size_t hi = 0; hi < hs.size(); ++hi) {
    Hier& h = hs[hi];
    auto dpf = MakeDpf(h);
    if (!dpf.ok()) continue;
    RefDpf m = Model(h);
    auto pair = GoodKeys(h, **dpf);
    auto good_reqs = Requests(h, false), bad_reqs = Requests(h, true);
    for (int party = 0; party < 2; ++party) {
      auto hist = Histories(h, **dpf, party ? pair.second : pair.first);
      for (auto& [name, c0] : hist) {
        if (Case(F("request/%s/p%d/%s", h.name.c_str(), party, name.c_str())))
          TryCtx(h, m, **dpf, c0, bad_reqs, name);
        if (party == 1 && !Thorough()) continue;
        Mutator mu;
        auto muts = mu.Of(c0);
        for (size_t base = 0; base < muts.size(); base += 40) {
          if (!Case(F("ctx/%s/p%d/%s/%zu", h.name.c_str(), party, name.c_str(), base))) continue;
          for (size_t i = base; i < std::min(base + 40, muts.size()); ++i) {
            EvaluationContext c = c0;
            muts[i].apply(&c);
            TryCtx(h, m, **dpf, c, good_reqs, name + muts[i].what);
          }
        }
        // Pairs of changes outside the key.
        if (hi != 1 && hi != 2 && !Thorough()) continue;
        EvaluationContext nokey = c0;
        nokey.clear_key();
        mu.adjust = false;
        mu.head = 1;
        auto m1 = mu.Of(nokey);
        for (size_t i = 0; i < m1.size(); ++i) {
          if (m1[i].what.rfind("/parameters", 0) == 0 && !Thorough()) continue;
          if (!Case(F("ctx2/%s/p%d/%s/%zu", h.name.c_str(), party, name.c_str(), i))) continue;
          EvaluationContext c1 = nokey;
          m1[i].apply(&c1);
          auto m2 = mu.Of(c1);
          for (auto& y : m2) {
            if (y.what.rfind("/parameters", 0) == 0 && !Thorough()) continue;
            EvaluationContext c = c1;
            y.apply(&c);
            if (!c.has_key()) *c.mutable_key() = c0.key();
            TryCtx(h, m, **dpf, c, good_reqs, name + m1[i].what + " + " + y.what);
          }
        }
      }
    }
    // Contexts of another function.
    for (size_t hj = 0; hj < hs.size(); ++hj) {
      if (hi == hj || !Case(F("foreign/%s/%s", h.name.c_str(), hs[hj].name.c_str()))) continue;
      auto dj = MakeDpf(hs[hj]);
      auto pj = GoodKeys(hs[hj], **dj);
      for (auto& [name, c] : Histories(hs[hj], **dj, pj.first)) TryCtx(h, m, **dpf, c, bad_reqs, "foreign " + name);
      TryKey(h, m, **dpf, pj.first, pair.first, "foreign key");
      TryKey(h, m, **dpf, pj.second, pair.second, "foreign key");
    }
    // Every wrong value type on every call.
    for (size_t ti = 0; ti < Types().size(); ++ti) {
      if (!Case(F("type/%s/%s", h.name.c_str(), T(ti)->name.c_str()))) continue;
      const TypeOps& o = *T(ti);
      auto hist = Histories(h, **dpf, pair.first);
      for (int lev = 0; lev < h.size(); ++lev) {
        bool right = h.t[lev]->name == o.name;
        std::vector<u128> pts = {0, MaskBits(h.d[lev])};
        auto want = [&](const char* api, const absl::Status& st) {
          Trans();
          if (st.ok() != right)
            Fail(std::string(api) + "-type", "level %d has %s, asked for %s: %s", lev, h.t[lev]->name.c_str(), o.name.c_str(), st.ToString().c_str());
        };
        want("at", o.at(**dpf, pair.first, lev, pts).status());
        for (auto& [name, c0] : hist) {
          EvaluationContext c = c0;
          int prev = c.previous_hierarchy_level();
          if (prev < lev) {
            std::vector<u128> pre;
            if (prev >= 0) pre = {0};
            want("until", o.until(**dpf, lev, pre, c).status());
            if (!right && c.SerializeAsString() != c0.SerializeAsString()) Fail("context-changed", "wrong type changed the context");
          }
          c = c0;
          bool covered = ClassifyCtx(h, m, **dpf, c0).partials.empty();
          if (covered || !right) want("at-ctx", o.at_ctx(**dpf, lev, pts, c).status());
        }
        State(lev * 100 + ti);
      }
      // EvaluateAndApply asks for the type level by level.
      const DpfKey* ks[1] = {&pair.first};
      std::vector<u128> pts = {0};
      int calls = 0, match = 0;
      while (match < h.size() && h.t[match]->name == o.name) ++match;
      auto st = o.apply(**dpf, absl::MakeConstSpan(ks, 1), pts, [&](Flat) { ++calls; return true; }, 0);
      Trans();
      Trace();
      if (st.ok() != (match == h.size()) || calls > match)
        Fail("apply-type", "asked for %s: %s after %d calls", o.name.c_str(), st.ToString().c_str(), calls);
    }
    // Points out of range in batches.
    if (Case(F("applyrange/%s", h.name.c_str()))) {
      const TypeOps& o = *h.t[0];
      const DpfKey* ks[2] = {&pair.first, &pair.second};
      for (int shift : {0, 1, 5, 64, 120, 126, 127, 128, 1000, -1, INT32_MIN, INT32_MAX})
        for (int np = 0; np <= 3; ++np)
          for (int b = -1; b < 128; ++b) {
            std::vector<u128> pts(np, 0);
            if (b >= 0 && np > 0) pts[np - 1] = u128{1} << b;
            int calls = 0;
            auto st = o.apply(**dpf, absl::MakeConstSpan(ks, 2), pts, [&](Flat) { ++calls; return false; }, shift);
            bool ok = np == 2 && shift >= 0 && (b < 0 || shift > 128 || Shr(u128{1} << b, shift) <= MaskBits(h.last()));
            Trans();
            State(Hash(&b, 4, static_cast<uint64_t>(shift) * 7 + np));
            if (st.ok() != ok || (!ok && calls)) Fail("apply-range", "shift %d, %d points, bit %d: %s", shift, np, b, st.ToString().c_str());
          }
    }
    // Key generation.
    if (Case(F("keygen/%s", h.name.c_str()))) {
      auto betas = HierBetas(h);
      for (int b = -1; b < 128; ++b) {
        R().Reset(1);
        u128 a = b < 0 ? u128{0} : u128{1} << b;
        auto k = HierKeys(h, **dpf, a, betas);
        Trans();
        if (k.ok() != (a <= MaskBits(h.last()))) Fail("alpha", "alpha=2^%d: %s", b, k.status().ToString().c_str());
      }
      std::vector<dp::Value> good;
      for (int i = 0; i < h.size(); ++i) good.push_back(h.t[i]->encode(betas[i]));
      for (int n = 0; n <= h.size() + 2; ++n) {
        std::vector<dp::Value> v = good;
        v.resize(n, good[0]);
        auto k = (*dpf)->GenerateKeysIncremental(0, absl::MakeConstSpan(v));
        if (k.ok() != (n == h.size())) Fail("beta-count", "%d values", n);
      }
      Mutator mu;
      for (int i = 0; i < h.size(); ++i) {
        auto m1 = mu.Of(good[i]);
        for (auto& a : m1) {
          auto v = good;
          a.apply(&v[i]);
          auto m2 = mu.Of(v[i]);
          for (size_t j = 0; j <= m2.size(); ++j) {
            auto w = v;
            if (j) m2[j - 1].apply(&w[i]);
            Flat f;
            bool ok = GetValue(h.t[i]->vt, w[i], &f);
            auto k = (*dpf)->GenerateKeysIncremental(0, absl::MakeConstSpan(w));
            Trans();
            State(Hash(w[i].SerializeAsString()));
            if (k.ok() != ok) Fail(ok ? "beta-refused" : "beta-accepted", "level %d %s%s: %s", i, a.what.c_str(), j ? m2[j - 1].what.c_str() : "", k.status().ToString().c_str());
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- parameters
void Params() {
  std::vector<ValueType> types = {ValueType()};
  for (int b : {INT32_MIN, -8, -1, 0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 32, 63, 64, 65, 100, 127, 128, 129, 256, INT32_MAX}) {
    types.push_back(Int(b));
    types.push_back(Xor(b));
    types.push_back(Tup({Int(b)}));
    types.push_back(Tup({Int(8), Tup({Xor(b)})}));
    for (int form = 0; form < 4; ++form)
      for (u128 n : {u128{0}, u128{1}, u128{2}, u128{255}, u128{256}, u128{257}, u128{1} << 32, u128{1} << 64, ~u128{0}}) {
        if (form == 0 && absl::Uint128High64(n)) continue;
        if (form >= 2 && n != 0) continue;
        types.push_back(Mod(b, n, form));
      }
  }
  types.push_back(Tup({}));
  types.push_back(Tup({Tup({})}));
  types.push_back(Tup({Tup({}), Tup({})}));
  types.push_back(Tup({Tup({}), Int(8)}));
  types.push_back(Tup({Int(8), ValueType()}));
  types.push_back(Tup({Mod(32, 5, 0), Mod(32, 5, 1)}));
  types.push_back(Tup({Mod(32, 5, 0), Mod(32, 0, 1)}));
  types.push_back(Tup({Mod(32, 5, 0), Mod(64, 5, 1)}));
  types.push_back(Tup({Mod(32, 5, 0), Tup({})}));
  types.push_back(Tup(std::vector<ValueType>(1000, Int(128))));
  std::vector<int> doms = {INT32_MIN, -1, 0, 1, 7, 62, 63, 64, 127, 128, 129, INT32_MAX};
  std::vector<double> secs = {0, -0.0, 5e-324, 1, 40, 128, 128.0001, 129, -1e-9, -1, INFINITY, -INFINITY, NAN};
  auto param = [&](int d, const ValueType& t, double s) {
    DpfParameters p;
    p.set_log_domain_size(d);
    if (t.type_case() != ValueType::TYPE_NOT_SET) *p.mutable_value_type() = t;
    p.set_security_parameter(s);
    return p;
  };
  auto valid = [&](const std::vector<DpfParameters>& ps) {
    if (ps.empty()) return 0;
    int r = 1;
    for (size_t i = 0; i < ps.size(); ++i) {
      const DpfParameters& p = ps[i];
      if (p.log_domain_size() < 0 || p.log_domain_size() > 128) return 0;
      if (i && p.log_domain_size() <= ps[i - 1].log_domain_size()) return 0;
      double s = p.security_parameter();
      if (std::isnan(s) || s < 0 || s > 128) return 0;
      if (s == 0) s = 40 + p.log_domain_size();
      if (!p.has_value_type()) return 0;
      TypeCheck c;
      CheckType(p.value_type(), s, &c);
      if (c.ok == 1 && c.bits == 0) c.ok = 0;
      if (c.ok == 0) return 0;
      if (c.ok < 0) r = -1;
    }
    return r;
  };
  auto attempt = [&](const std::vector<DpfParameters>& ps) {
    auto dpf = Dpf::CreateIncremental(ps);
    int want = valid(ps);
    Trans();
    Trace();
    std::string key;
    for (auto& p : ps) key += p.SerializeAsString() + "|";
    State(Hash(key));
    auto show = [&] {
      std::string s;
      for (auto& p : ps) s += p.ShortDebugString().substr(0, 200) + " | ";
      return s;
    };
    if (want == 0 && dpf.ok()) Fail("params-accepted", "%s", show().c_str());
    if (want == 0 && !dpf.ok() && !BadRequest(dpf.status())) Fail("params-code", "%s: %s", show().c_str(), dpf.status().ToString().c_str());
    if (want == 1 && !dpf.ok()) Fail("params-refused", "%s: %s", show().c_str(), dpf.status().ToString().c_str());
    if (!dpf.ok()) return;
    // Key generation without a registered type must not crash; plain integers of
    // the C++ widths work without registration.
    std::vector<dp::Value> vals;
    bool plain = true;
    for (auto& p : ps) {
      dp::Value v;
      std::function<void(const ValueType&, dp::Value*)> zero = [&](const ValueType& t, dp::Value* o) {
        if (t.type_case() == ValueType::kInteger) o->mutable_integer()->set_value_uint64(0);
        else if (t.type_case() == ValueType::kXorWrapper) o->mutable_xor_wrapper()->set_value_uint64(0);
        else if (t.type_case() == ValueType::kIntModN) o->mutable_int_mod_n()->set_value_uint64(0);
        else {
          o->mutable_tuple();
          for (auto& e : t.tuple().elements()) zero(e, o->mutable_tuple()->add_elements());
        }
      };
      zero(p.value_type(), &v);
      vals.push_back(v);
      plain &= p.value_type().type_case() == ValueType::kInteger && p.value_type().integer().bitsize() >= 8;
    }
    R().Reset(2);
    auto k = (*dpf)->GenerateKeysIncremental(0, absl::MakeConstSpan(vals));
    Trans();
    if (k.ok() != plain) Fail(plain ? "keygen-refused" : "keygen-unregistered", "%s: %s", show().c_str(), k.status().ToString().c_str());
    if (!k.ok() && k.status().code() != absl::StatusCode::kFailedPrecondition) Fail("keygen-code", "%s: %s", show().c_str(), k.status().ToString().c_str());
    if (k.ok()) {
      // The size of a key follows from the parameters; both evaluate.
      auto c = (*dpf)->CreateEvaluationContext(k->second);
      if (!c.ok()) Fail("keygen-invalid", "%s: generated key refused", show().c_str());
    }
  };
  if (Case("params/none")) attempt({});
  for (size_t ti = 0; ti < types.size(); ++ti) {
    if (!Case(F("params/1/%zu", ti))) continue;
    for (int d : doms)
      for (double s : secs) attempt({param(d, types[ti], s)});
    // As one level of a longer hierarchy.
    for (int d1 : doms)
      for (int d2 : doms) {
        attempt({param(d1, types[ti], 40), param(d2, Int(64), 0)});
        attempt({param(d1, Int(8), 0), param(d2, types[ti], 40)});
        if (d1 % 2 == 0) attempt({param(0, Int(8), 0), param(d1, types[ti], 40), param(d2, Int(128), 0)});
      }
  }
  // All increasing and non-increasing triples of domains.
  for (size_t a = 0; a < doms.size(); ++a) {
    if (!Case(F("params/3/%zu", a))) continue;
    for (int b : doms)
      for (int c : doms)
        for (double s : secs) attempt({param(doms[a], Int(8), 0), param(b, Int(32), s), param(c, Int(128), 0)});
  }
  if (Case("params/many")) {
    std::vector<DpfParameters> ps;
    for (int d = 0; d <= 128; ++d) ps.push_back(param(d, Int(d % 2 ? 8 : 128), 0));
    for (auto& p : ps)
      if (p.log_domain_size() > 88) p.set_security_parameter(40);
    attempt(ps);
    ps.push_back(param(128, Int(8), 40));
    attempt(ps);
  }
  // Domain gaps too large to expand are refused before any memory is asked for.
  for (int d : {62, 63, 64, 100, 127, 128}) {
    if (!Case(F("gap/%d", d))) continue;
    for (int ti : {0, 3, 9}) {
      for (int first = 0; first < 2; ++first) {
        Hier h;
        if (first) { h.d.push_back(1); h.t.push_back(T(3)); }
        h.d.push_back(d + (first && d < 128 ? 1 : 0));
        h.t.push_back(T(ti));
        auto dpf = MakeDpf(h);
        if (!dpf.ok()) { Fail("create", "%s", dpf.status().ToString().c_str()); continue; }
        R().Reset(1);
        auto k = HierKeys(h, **dpf, 0, HierBetas(h));
        if (!k.ok()) { Fail("keygen", "%s", k.status().ToString().c_str()); continue; }
        auto c = *(*dpf)->CreateEvaluationContext(k->first);
        std::vector<u128> pre;
        if (first) { h.t[0]->until(**dpf, 0, {}, c); pre = {0, 1}; }
        std::string before = c.SerializeAsString();
        auto r = h.t.back()->until(**dpf, h.size() - 1, pre, c);
        Trans();
        State(d * 10 + ti);
        if (r.ok()) Fail("gap", "expansion of %d bits answered with OK", d);
        int gap = h.d.back() - (first ? 1 : 0);
        if (gap >= 63 && c.SerializeAsString() != before) Fail("context-changed", "refused expansion changed the context");
      }
    }
  }
}

// Contexts whose security parameter is that of another DPF.
void Security() {
  auto near = [](double a, double b) { return std::abs(a - b) <= 0.0001; };
  for (int d : {1, 3, 10, 50, 70}) {
    const double def = 40 + d;
    std::vector<double> secs = {0, 1, 10, 40, def - 5, def - 1, def - 0.5, def - 0.01, def - 0.00005, def, def + 0.00005, def + 0.01, def + 0.5, def + 1, def + d, 127, 128};
    for (int where = 0; where < 3; ++where) {
      if (!Case(F("security/%d/%d", d, where))) continue;
      for (double mine : secs) {
        if (mine > 128) continue;
        std::vector<DpfParameters> ps;
        for (int i = 0; i < 2; ++i) {
          DpfParameters p;
          p.set_log_domain_size(d + i * 2);
          *p.mutable_value_type() = dp::ToValueType<uint64_t>();
          if (where == 2 || where == i) p.set_security_parameter(mine);
          ps.push_back(p);
        }
        auto dpf = Dpf::CreateIncremental(ps);
        if (!dpf.ok()) { Fail("create", "%s", dpf.status().ToString().c_str()); continue; }
        R().Reset(d);
        auto k = (*dpf)->GenerateKeysIncremental(u128{1}, uint64_t{5}, uint64_t{6});
        if (!k.ok()) { Fail("keygen", "%s", k.status().ToString().c_str()); continue; }
        auto ctx = (*dpf)->CreateEvaluationContext(k->first);
        if (!ctx.ok()) { Fail("context", "%s", ctx.status().ToString().c_str()); continue; }
        for (int level = 0; level < 2; ++level)
          for (double theirs : secs) {
            if (theirs > 128) continue;
            auto c = *ctx;
            c.mutable_parameters(level)->set_security_parameter(theirs);
            double a = ps[level].security_parameter(), b = theirs;
            if (a == 0) a = 40 + d + level * 2;
            if (b == 0) b = 40 + d + level * 2;
            auto c2 = c;
            auto r = (*dpf)->EvaluateAt<uint64_t>(0, {u128{1}, u128{0}}, c2);
            Trans(), Trace();
            State(Hash(F("%d %d %g %g %d", d, where, mine, theirs, level)));
            if (r.ok() != near(a, b)) Fail(r.ok() ? "security-accepted" : "security-refused", "DPF with %g, context with %g at level %d of domains %d, %d: %s", ps[level].security_parameter(), theirs, level, d, d + 2, r.status().ToString().c_str());
            if (!r.ok() && !BadRequest(r.status())) Fail("security-code", "%s", r.status().ToString().c_str());
            if (d > 10) continue;
            auto u = (*dpf)->EvaluateUntil<uint64_t>(0, {}, c);
            Trans();
            if (u.ok() != near(a, b)) Fail(u.ok() ? "security-accepted" : "security-refused", "expansion: DPF with %g, context with %g at level %d of domains %d, %d: %s", ps[level].security_parameter(), theirs, level, d, d + 2, u.status().ToString().c_str());
          }
      }
    }
  }
}
}  // namespace

void VpRun() {
  if (Mode("keys")) Keys();
  else if (Mode("contexts")) Contexts(), Security();
  else Params();
}
