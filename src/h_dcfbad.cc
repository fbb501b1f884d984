// P15: malformed comparison-function and interval-gate inputs.
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf_ops.h"
#include "mutate.h"
#include "wellformed.h"
using namespace vp;
using dp::Tuple;
using dp::XorWrapper;
namespace fg = dp::fss_gates;
using Gate = fg::MultipleIntervalContainmentGate;
using fg::MicKey;
using fg::MicParameters;

namespace {
using M64 = dp::IntModN<u64, 1000000007ull>;
std::vector<DcfOps>& Types() {
  static auto* v = new std::vector<DcfOps>{MakeDcf<u8>(), MakeDcf<u64>(), MakeDcf<u128>(), MakeDcf<XorWrapper<u64>>(), MakeDcf<M64>(),
                                           MakeDcf<Tuple<u32, u64>>(), MakeDcf<Tuple<M64, XorWrapper<u8>>>()};
  return *v;
}
Hier DcfHier(int n, const TypeOps& o) {
  Hier h;
  for (int i = 0; i < n; ++i) {
    h.d.push_back(i);
    h.t.push_back(&o);
  }
  h.name = F("n%d/", n) + o.name;
  return h;
}
// The share of a comparison function at x. All levels lie on one path of the tree,
// which is walked once.
Spec DcfSpec(int n, const TypeOps& o, const RefDpf& m, const KeyInfo& k, u128 x) {
  Spec s;
  if (!k.ok || x > MaskBits(n)) return s;
  for (bool b : k.level_ok)
    if (!b) return s;
  s.value.assign(o.n(), 0);
  u128 seed = k.ref.seed[0];
  bool c = k.party;
  int at = 0;
  for (int lev = 0; lev < n; ++lev) {
    // Walk on to this level's depth; WalkFrom needs only the path below `at`.
    while (at < m.tree[lev]) {
      u128 e[2];
      bool ec[2];
      RefDpf::Expand(seed, e, ec);
      bool bit = (Shr(x, n - 1 - at) & 1) != 0;
      bool nc = ec[bit];
      seed = e[bit];
      if (c) {
        nc ^= bit ? k.ref.cw[at].right : k.ref.cw[at].left;
        nc ^= (k.ref.cw[at].seed & 1) != 0;
        seed ^= k.ref.cw[at].seed & ~u128{1};
      }
      c = nc;
      ++at;
    }
    if ((Shr(x, n - lev - 1) & 1) != 0) continue;
    Flat f = WalkFrom(m, k, seed, c, at, lev, Shr(x, n - lev));
    for (int i = 0; i < o.n(); ++i) s.value[i] = RefAdd(o.leaves[i], s.value[i], f[i]);
  }
  s.what = kValue;
  return s;
}
KeyInfo ClassifyDcf(const Hier& h, const RefDpf& m, const DcfKey& key) {
  return key.has_key() ? Classify(h, m, key.key()) : KeyInfo();
}
Spec DcfSpec(int n, const TypeOps& o, const Hier& h, const RefDpf& m, const DcfKey& key, u128 x) {
  return DcfSpec(n, o, m, ClassifyDcf(h, m, key), x);
}
std::vector<u128> Xs(int n) {
  std::vector<u128> v = {0, MaskBits(n), MaskBits(n) / 3};
  if (n < 128) {
    v.push_back(u128{1} << n);
    v.push_back(MaskBits(n) + 2);
    v.push_back(~u128{0});
    v.push_back(u128{1} << 127);
  }
  return v;
}

void TryDcfKey(const DcfOps& d, Dcf& f, int n, const Hier& h, const RefDpf& m, const DcfKey& key, const DcfKey& good, const std::string& what) {
  State(Hash(key.SerializeAsString()));
  Trace();
  for (u128 x : Xs(n)) {
    Spec s = DcfSpec(n, d.o, h, m, key, x);
    Judge("evaluate", what + " x=" + S(x), s, d.eval(f, key, x));
    for (int pos = 0; pos < 2; ++pos) {
      const DcfKey* ks[2] = {pos ? &good : &key, pos ? &key : &good};
      u128 xs[2] = {pos ? u128{0} : x, pos ? x : u128{0}};
      Spec g = DcfSpec(n, d.o, h, m, good, 0), both;
      if (s.what == kValue) {
        both = pos ? g : s;
        auto& t = pos ? s : g;
        both.value.insert(both.value.end(), t.value.begin(), t.value.end());
      }
      Judge("batch", what + " x=" + S(x), both, d.batch_ptr(f, ks, xs));
    }
  }
}

void DcfKeys() {
  for (size_t ti = 0; ti < Types().size(); ++ti) {
    DcfOps& d = Types()[ti];
    for (int n : {1, 2, 5, 8}) {
      Hier h = DcfHier(n, d.o);
      RefDpf m(h.d, h.t);
      auto f = Dcf::Create(DcfParam(n, d.o));
      if (!f.ok()) {
        if (Case("make/" + h.name)) Fail("create", "%s", f.status().ToString().c_str());
        continue;
      }
      R().Reset(4);
      auto k = d.keys(**f, MaskBits(n) & 0x5a, Betas(d.o, 1)[0]);
      if (!k.ok()) {
        if (Case("make/" + h.name)) Fail("keygen", "%s", k.status().ToString().c_str());
        continue;
      }
      for (int party = 0; party < 2; ++party) {
        DcfKey good = party ? k->second : k->first;
        Mutator mu;
        auto muts = mu.Of(good);
        for (size_t base = 0; base <= muts.size(); base += 30) {
          if (!Case(F("key/%s/p%d/%zu", h.name.c_str(), party, base))) continue;
          if (base == 0) TryDcfKey(d, **f, n, h, m, good, good, "unchanged");
          for (size_t i = base; i < std::min(base + 30, muts.size()); ++i) {
            DcfKey key = good;
            muts[i].apply(&key);
            TryDcfKey(d, **f, n, h, m, key, good, muts[i].what);
          }
        }
        if (party || n > 2) continue;
        if (!Thorough() && ti % 3) continue;
        mu.adjust = false;
        mu.head = 1;
        auto m1 = mu.Of(good);
        for (size_t i = 0; i < m1.size(); ++i) {
          if (!Case(F("key2/%s/%zu", h.name.c_str(), i))) continue;
          DcfKey k1 = good;
          m1[i].apply(&k1);
          for (auto& y : mu.Of(k1)) {
            DcfKey key = k1;
            y.apply(&key);
            TryDcfKey(d, **f, n, h, m, key, good, m1[i].what + " + " + y.what);
          }
        }
      }
      // Keys, values and sizes of other functions.
      if (Case("foreign/" + h.name)) {
        for (auto& d2 : Types())
          for (int n2 : {1, 2, 3, 5, 8, 9}) {
            auto f2 = Dcf::Create(DcfParam(n2, d2.o));
            auto k2 = d2.keys(**f2, 0, Betas(d2.o, 1)[0]);
            if (!k2.ok()) continue;
            TryDcfKey(d, **f, n, h, m, k2->first, k->first, "key of n" + F("%d/", n2) + d2.o.name);
            // Asking for another type than the function's.
            auto r = d2.eval(**f, k->first, 0);
            Trans();
            if (r.ok() != (d2.o.name == d.o.name)) Fail("type", "function of %s asked for %s: %s", d.o.name.c_str(), d2.o.name.c_str(), r.status().ToString().c_str());
            auto g = d2.keys(**f, 0, Betas(d2.o, 1)[0]);
            auto g2 = (*f)->GenerateKeys(0, d2.o.encode(Betas(d2.o, 1)[0]));
            Trans(2);
            if (d2.o.name != d.o.name && (g.ok() || g2.ok()) && !(d2.o.leaves.size() == 1 && d.o.leaves.size() == 1 && d2.o.leaves[0].kind == d.o.leaves[0].kind))
              Fail("keygen-type", "function of %s got a value of %s", d.o.name.c_str(), d2.o.name.c_str());
          }
      }
      // Counts.
      if (Case("counts/" + h.name)) {
        std::vector<const DcfKey*> ks(6, &k->first);
        std::vector<u128> xs(6, 0);
        for (int a = 0; a <= 5; ++a)
          for (int b = 0; b <= 5; ++b) {
            auto ka = absl::MakeConstSpan(ks).subspan(0, a);
            auto xb = absl::MakeConstSpan(xs).subspan(0, b);
            std::vector<DcfKey> ko(a, k->first);
            auto r1 = d.batch_ptr(**f, ka, xb);
            auto r2 = d.batch_obj(**f, ko, xb);
            if (r1.ok() != (a == b) || r2.ok() != (a == b)) Fail("counts", "%d keys, %d points", a, b);
            for (int c = 0; c <= 5; ++c) {
              auto r3 = d.batch_out(**f, ka, xb, c);
              Trans();
              State(a * 36 + b * 6 + c);
              if (r3.ok() != (a == b && b == c)) Fail("counts", "%d keys, %d points, %d outputs", a, b, c);
            }
          }
      }
      // Key generation.
      if (Case("keygen/" + h.name)) {
        dp::Value v = d.o.encode(Betas(d.o, 1)[0]);
        for (int b = -1; b < 128; ++b) {
          u128 a = b < 0 ? MaskBits(n) : u128{1} << b;
          auto g1 = d.keys(**f, a, Betas(d.o, 1)[0]);
          auto g2 = (*f)->GenerateKeys(a, v);
          Trans(2);
          if (g1.ok() != (a <= MaskBits(n)) || g2.ok() != g1.ok()) Fail("alpha", "alpha=%s", S(a).c_str());
        }
        Mutator mu;
        for (auto& x : mu.Of(v)) {
          dp::Value w = v;
          x.apply(&w);
          for (u128 alpha : {u128{0}, MaskBits(n)}) {
            auto g = (*f)->GenerateKeys(alpha, w);
            Trans();
            State(Hash(w.SerializeAsString()));
            Flat fl;
            bool ok = GetValue(d.o.vt, w, &fl);
            if (alpha == MaskBits(n) && g.ok() != ok) Fail("beta", "%s: %s", x.what.c_str(), g.status().ToString().c_str());
            if (alpha == 0 && ok && !g.ok()) Fail("beta", "%s: %s", x.what.c_str(), g.status().ToString().c_str());
          }
        }
      }
    }
  }
}

void DcfParams() {
  std::vector<ValueType> types = {ValueType(), Int(8), Int(128), Int(0), Int(-8), Int(7), Int(129), Int(256), Int(INT32_MAX), Xor(64), Xor(3), Tup({}),
                                  Tup({Tup({})}), Tup({Int(8), Tup({Xor(32)})}), Tup({Int(8), Int(9)}), Mod(32, 0, 0), Mod(32, 5, 0), Mod(32, 5, 1), Mod(32, 0, 2),
                                  Mod(32, 0, 3), Mod(8, 256, 0), Mod(64, u128{1} << 64, 1), Mod(128, ~u128{0}, 1), Tup({Mod(32, 5, 0), Mod(32, 7, 0)})};
  std::vector<int> doms = {INT32_MIN, -1000, -1, 0, 1, 2, 3, 8, 63, 64, 127, 128, 129, 130, 1000, 1 << 20};
  if (Thorough()) doms.push_back(INT32_MAX);
  for (size_t ti = 0; ti < types.size(); ++ti) {
    if (!Case(F("params/%zu", ti))) continue;
    for (int d : doms)
      for (double sec : {0.0, -0.0, 1.0, 40.0, 128.0, 129.0, -1.0, (double)INFINITY, -(double)INFINITY, (double)NAN}) {
        DcfParameters p;
        p.mutable_parameters()->set_log_domain_size(d);
        if (types[ti].type_case() != ValueType::TYPE_NOT_SET) *p.mutable_parameters()->mutable_value_type() = types[ti];
        p.mutable_parameters()->set_security_parameter(sec);
        int want = 1;
        if (d < 1 || d > 128 || std::isnan(sec) || sec < 0 || sec > 128 || types[ti].type_case() == ValueType::TYPE_NOT_SET) want = 0;
        if (want)
          for (int i = 0; i < d; ++i) {
            TypeCheck c;
            CheckType(types[ti], sec == 0 ? 40 + i : sec, &c);
            if (c.ok == 1 && c.bits == 0) c.ok = 0;
            if (c.ok == 0) { want = 0; break; }
            if (c.ok < 0) want = -1;
          }
        auto f = Dcf::Create(p);
        Trans();
        Trace();
        State(Hash(p.SerializeAsString()));
        if (want == 0 && f.ok()) Fail("params-accepted", "%s", p.ShortDebugString().c_str());
        if (want == 1 && !f.ok()) Fail("params-refused", "%s: %s", p.ShortDebugString().c_str(), f.status().ToString().c_str());
        if (want == 0 && !f.ok() && !BadRequest(f.status())) Fail("params-code", "%s: %s", p.ShortDebugString().c_str(), f.status().ToString().c_str());
      }
  }
  if (Case("params/empty")) {
    auto f = Dcf::Create(DcfParameters());
    State(1);
    if (f.ok()) Fail("params-accepted", "empty parameters");
  }
}

// ---------------------------------------------------------------- interval gate
bool Bound(const dp::Value::Integer& i, int n, u128* x) { return GetInt(i, x) && *x <= MaskBits(n); }
bool MicOk(const MicParameters& p, std::vector<std::pair<u128, u128>>* iv) {
  int n = p.log_group_size();
  if (n < 1 || n > 127) return false;
  for (auto& i : p.intervals()) {
    u128 a, b;
    if (!i.has_lower_bound() || !i.has_upper_bound() || !Bound(i.lower_bound(), n, &a) || !Bound(i.upper_bound(), n, &b) || a > b) return false;
    iv->push_back({a, b});
  }
  return true;
}
TypeOps& U128() {
  static auto* o = new TypeOps(MakeOps<u128>());
  return *o;
}
Spec MicSpec(int n, const std::vector<std::pair<u128, u128>>& iv, const MicKey& k, u128 x) {
  Spec s;
  if (iv.empty()) { s.what = kAny; return s; }
  static std::map<int, std::pair<Hier, RefDpf>> models;
  auto it = models.find(n);
  if (it == models.end()) {
    Hier nh = DcfHier(n, U128());
    it = models.emplace(n, std::make_pair(nh, RefDpf(nh.d, nh.t))).first;
  }
  const RefDpf& m = it->second.second;
  u128 mask = MaskBits(n);
  if (x > mask || k.output_mask_share_size() != (int)iv.size() || !k.has_dcfkey()) return s;
  KeyInfo ki = ClassifyDcf(it->second.first, m, k.dcfkey());
  for (size_t j = 0; j < iv.size(); ++j) {
    u128 z;
    if (!GetInt(k.output_mask_share(j), &z)) return Spec();
    u128 q1 = (iv[j].second + 1) & mask;
    Spec a = DcfSpec(n, U128(), m, ki, (x - 1 - iv[j].first) & mask);
    Spec b = DcfSpec(n, U128(), m, ki, (x - 1 - q1) & mask);
    if (a.what != kValue || b.what != kValue) return Spec();
    u128 y = z - a.value[0] + b.value[0];
    if (k.dcfkey().key().party()) y += (x > iv[j].first ? 1 : 0) - (x > q1 ? 1 : 0);
    s.value.push_back(y & mask);
  }
  s.what = kValue;
  return s;
}
absl::StatusOr<Flat> Conv(absl::StatusOr<std::vector<u128>> r, int n) {
  if (!r.ok()) return r.status();
  for (auto& x : *r) x &= MaskBits(n);
  return *r;
}
void TryGate(const MicParameters& p, const std::string& what) {
  std::vector<std::pair<u128, u128>> iv;
  bool ok = MicOk(p, &iv);
  auto g = Gate::Create(p);
  Trans();
  Trace();
  State(Hash(p.SerializeAsString()));
  if (g.ok() != ok) {
    Fail(ok ? "mic-refused" : "mic-accepted", "%s: %s (%s)", what.c_str(), p.ShortDebugString().c_str(), g.status().ToString().c_str());
    return;
  }
  if (!ok) {
    if (!BadRequest(g.status())) Fail("mic-code", "%s: %s", what.c_str(), g.status().ToString().c_str());
    return;
  }
  R().Reset(3);
  u128 mask = MaskBits(p.log_group_size());
  std::vector<u128> out(iv.size(), mask);
  auto k = (*g)->Gen(mask, out);
  if (!k.ok()) Fail("gen-refused", "%s: %s", what.c_str(), k.status().ToString().c_str());
  else
    for (u128 x : {u128{0}, mask, mask / 2})
      for (int party = 0; party < 2; ++party) {
        // Large groups are slow to predict: one of the six per gate.
        if (p.log_group_size() > 8 && !Thorough() && Hash(p.SerializeAsString()) % 6 != (x == 0 ? 0 : x == mask ? 1 : 2) + 3 * party) continue;
        auto& key = party ? k->second : k->first;
        Judge("mic-eval", what + " x=" + S(x), MicSpec(p.log_group_size(), iv, key, x), Conv((*g)->Eval(key, x), p.log_group_size()));
      }
}
void SetBound(dp::Value::Integer* v, u128 x, int form) {
  if (form == 0 && absl::Uint128High64(x) == 0) v->set_value_uint64(absl::Uint128Low64(x));
  else if (form <= 1) {
    v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
    v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  } else if (form == 2) v->mutable_value_uint128();
}
MicParameters GateParams(int n, const std::vector<std::pair<u128, u128>>& iv) {
  MicParameters p;
  p.set_log_group_size(n);
  for (auto& i : iv) {
    auto* v = p.add_intervals();
    SetBound(v->mutable_lower_bound(), i.first, 1);
    SetBound(v->mutable_upper_bound(), i.second, 1);
  }
  return p;
}
std::vector<std::vector<std::pair<u128, u128>>> IvLists(int n) {
  u128 t = MaskBits(n);
  return {{{0, 0}}, {{t, t}}, {{0, t}}, {{1, t - 1 > 1 ? t - 1 : t}, {0, t / 2}}, {{0, 0}, {t, t}, {t / 2, t}}, {}};
}
void MicCreate() {
  std::vector<int> ns = {INT32_MIN, -1, 0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 1000, INT32_MAX};
  // Every bound at every boundary in every encoding.
  for (size_t a = 0; a < ns.size(); ++a)
    for (int fl = 0; fl < 4; ++fl) {
      if (!Case(F("create/%d/f%d", ns[a], fl))) continue;
      std::vector<u128> b = {0, 1, 2, 3, 4, u128{1} << 63, ~u64{0}, u128{1} << 64, u128{1} << 65, MaskBits(126), MaskBits(127), u128{1} << 127, ~u128{0}};
      for (u128 lo : b)
        for (u128 hi : b)
          for (int fu = 0; fu < 4; ++fu) {
            MicParameters p;
            p.set_log_group_size(ns[a]);
            auto* v = p.add_intervals();
            SetBound(v->mutable_lower_bound(), lo, fl);
            SetBound(v->mutable_upper_bound(), hi, fu);
            TryGate(p, "grid");
            if (lo <= 1 && hi >= lo && fl < 2 && fu < 2) {
              // The bad interval after or before a good one.
              auto* w = p.add_intervals();
              SetBound(w->mutable_lower_bound(), 0, 0);
              SetBound(w->mutable_upper_bound(), 1, 1);
              TryGate(p, "grid2");
            }
          }
    }
  for (int n : {1, 2, 64, 127}) {
    auto lists = IvLists(n);
    for (size_t li = 0; li < lists.size(); ++li) {
      if (!Case(F("createmut/%d/%zu", n, li))) continue;
      MicParameters p = GateParams(n, lists[li]);
      TryGate(p, "unchanged");
      Mutator mu;
      for (auto& x : mu.Of(p)) {
        MicParameters q = p;
        x.apply(&q);
        TryGate(q, x.what);
        Mutator mu2;
        mu2.adjust = false;
        for (auto& y : mu2.Of(q)) {
          MicParameters r = q;
          y.apply(&r);
          TryGate(r, x.what + " + " + y.what);
        }
      }
    }
  }
}
void MicKeys() {
  for (int n : {1, 2, 5, 64, 127}) {
    auto lists = IvLists(n);
    for (size_t li = 0; li < lists.size(); ++li) {
      auto& iv = lists[li];
      auto g = Gate::Create(GateParams(n, iv));
      u128 mask = MaskBits(n);
      if (!g.ok()) continue;
      std::vector<u128> out;
      for (size_t j = 0; j < iv.size(); ++j) out.push_back((mask - j) & mask);
      R().Reset(2);
      auto k = (*g)->Gen(mask / 2, out);
      if (!k.ok()) continue;  // reported by "create"
      for (int party = 0; party < 2; ++party) {
        MicKey good = party ? k->second : k->first;
        auto attempt = [&](const MicKey& key, const std::string& what) {
          State(Hash(key.SerializeAsString()));
          Trace();
          std::vector<u128> xs = {0, mask, mask / 2 + 1, mask + 1, u128{1} << 127, ~u128{0}};
          if (n > 8 && !Thorough()) xs = {Hash(what) % 2 ? mask / 2 + 1 : mask, mask + 1};
          for (u128 x : xs) {
            Spec s = MicSpec(n, iv, key, x);
            Judge("mic-eval", what + " x=" + S(x), s, Conv((*g)->Eval(key, x), n));
            for (int pos = 0; pos < 2; ++pos) {
              const MicKey* ks[2] = {pos ? &good : &key, pos ? &key : &good};
              u128 pts[2] = {pos ? u128{0} : x, pos ? x : u128{0}};
              Spec gs = MicSpec(n, iv, good, 0), both = s;
              if (s.what == kValue) {
                both = pos ? gs : s;
                auto& t = pos ? s : gs;
                both.value.insert(both.value.end(), t.value.begin(), t.value.end());
              }
              Judge("mic-batch", what + " x=" + S(x), both, Conv((*g)->BatchEval(ks, pts), n));
            }
          }
        };
        Mutator mu;
        auto muts = mu.Of(good);
        for (size_t base = 0; base <= muts.size(); base += 40) {
          if (!Case(F("mickey/n%d/%zu/p%d/%zu", n, li, party, base))) continue;
          if (n >= 64 && !Thorough() && base % 160) continue;
          if (base == 0) attempt(good, "unchanged");
          for (size_t i = base; i < std::min(base + 40, muts.size()); ++i) {
            MicKey key = good;
            muts[i].apply(&key);
            attempt(key, muts[i].what);
          }
        }
        // Every number of mask shares.
        if (Case(F("masks/n%d/%zu/p%d", n, li, party)))
          for (size_t c = 0; c <= iv.size() + 3; ++c) {
            MicKey key = good;
            key.clear_output_mask_share();
            for (size_t j = 0; j < c; ++j) SetBound(key.add_output_mask_share(), j, j % 2);
            attempt(key, F("%zu mask shares", c));
          }
      }
      if (Case(F("gen/n%d/%zu", n, li))) {
        for (size_t c = 0; c <= iv.size() + 3; ++c) {
          auto r = (*g)->Gen(0, std::vector<u128>(c, 0));
          Trans();
          State(c);
          if (r.ok() != (c == iv.size())) Fail("gen-count", "%zu output masks for %zu intervals", c, iv.size());
        }
        for (int b = 0; b < 128; ++b) {
          u128 v = u128{1} << b;
          auto r = (*g)->Gen(v, out);
          Trans();
          if (r.ok() != (v <= mask)) Fail("gen-mask", "input mask 2^%d", b);
          for (size_t j = 0; j < iv.size(); ++j) {
            auto o = out;
            o[j] = v;
            auto r2 = (*g)->Gen(0, o);
            Trans();
            if (r2.ok() != (v <= mask)) Fail("gen-mask", "output mask %zu is 2^%d", j, b);
          }
        }
        for (int a = 0; a <= 4; ++a)
          for (int b = 0; b <= 4; ++b) {
            std::vector<MicKey> ks(a, k->first);
            std::vector<u128> xs(b, 0);
            std::vector<const MicKey*> ps(a, &k->first);
            auto r = (*g)->BatchEval(ks, xs);
            auto r2 = (*g)->BatchEval(ps, xs);
            Trans(2);
            if (r.ok() != (a == b) || r2.ok() != (a == b)) Fail("mic-counts", "%d keys, %d points", a, b);
            if (r.ok() && r->size() != a * iv.size()) Fail("mic-size", "%d keys: %zu results", a, r->size());
          }
      }
    }
  }
}
}  // namespace

void VpRun() {
  if (Mode("dcf")) {
    DcfParams();
    DcfKeys();
  } else {
    MicCreate();
    MicKeys();
  }
}
