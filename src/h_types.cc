// P05 (mode share) and P10 (mode ref): every value type through key generation
// and all evaluation paths.
//  share: shares add up, under the type's own addition, to beta / zero.
//  ref:   keys and shares equal the reference construction bit for bit; the
//         shape of keys is independent of alpha, beta and party.
#include "hier.h"
#include "ref_dpf.h"
#include "type_list.h"
using namespace vp;

static void Share(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas, bool full) {
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "alpha=%s: %s", S(alpha).c_str(), keys.status().ToString().c_str()); return; }
  EvaluationContext chain[2];
  for (int p = 0; p < 2; ++p) {
    auto c = dpf.CreateEvaluationContext(p ? keys->second : keys->first);
    if (!c.ok()) { Fail("context-refused", "%s", c.status().ToString().c_str()); return; }
    chain[p] = *c;
  }
  for (int lev = 0; lev < h.size(); ++lev) {
    const TypeOps& o = *h.t[lev];
    u128 target = Shr(alpha, h.last() - h.d[lev]);
    std::vector<u128> pts;
    if (full) for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) pts.push_back(x);
    else {
      pts = {target, target ^ 1, u128{0}, MaskBits(h.d[lev])};
      for (int b = 0; b < h.d[lev]; b += 5) pts.push_back(target ^ Shl(1, b));
      for (auto& x : pts) x &= MaskBits(h.d[lev]);
    }
    absl::StatusOr<Flat> r[3][2];
    const char* api[3] = {"at", "until", "chain"};
    for (int p = 0; p < 2; ++p) {
      const DpfKey& k = p ? keys->second : keys->first;
      r[0][p] = o.at(dpf, k, lev, pts);
      if (full) {
        EvaluationContext c = *dpf.CreateEvaluationContext(k);
        r[1][p] = o.until(dpf, lev, {}, c);
        std::vector<u128> pre;
        if (lev > 0) for (u128 x = 0; x < Shl(1, h.d[lev - 1]); ++x) pre.push_back(x);
        r[2][p] = o.until(dpf, lev, pre, chain[p]);
      }
    }
    for (int a = 0; a < (full ? 3 : 1); ++a) {
      if (!r[a][0].ok() || !r[a][1].ok()) { Fail(std::string(api[a]) + "-refused", "level %d: %s", lev, (r[a][0].ok() ? r[a][1] : r[a][0]).status().ToString().c_str()); return; }
      if (o.Size(*r[a][0]) != (int64_t)pts.size() || o.Size(*r[a][1]) != (int64_t)pts.size()) { Fail(std::string(api[a]) + "-size", "level %d", lev); return; }
      for (size_t i = 0; i < pts.size(); ++i) {
        const u128 *x = &(*r[a][0])[i * o.n()], *y = &(*r[a][1])[i * o.n()];
        if (!InRange(o, x) || !InRange(o, y)) { Fail(std::string(api[a]) + "-range", "level %d: %s %s", lev, Show(x, o.n()).c_str(), Show(y, o.n()).c_str()); return; }
        if (!SumIs(o, x, y, pts[i] == target ? betas[lev].data() : nullptr)) {
          Fail(std::string(api[a]) + "-sum", "level %d alpha=%s x=%s beta=%s: %s + %s", lev, S(alpha).c_str(), S(pts[i]).c_str(), Show(betas[lev].data(), o.n()).c_str(), Show(x, o.n()).c_str(), Show(y, o.n()).c_str());
          return;
        }
      }
      State(HashFlat(*r[a][0], HashFlat(*r[a][1])));
      Trans(pts.size());
      Trace(2);
    }
  }
}

static u128 Blk(const dp::Block& b) { return absl::MakeUint128(b.high(), b.low()); }

// Shape of a key: which fields are present and how many, no values.
static std::string Shape(const DpfKey& k) {
  std::function<std::string(const dp::Value&)> val = [&](const dp::Value& v) -> std::string {
    if (v.value_case() == dp::Value::kTuple) {
      std::string s = "(";
      for (auto& e : v.tuple().elements()) s += val(e);
      return s + ")";
    }
    return F("v%d", int(v.value_case()));
  };
  std::string s = F("seed%d cw%d last%d", k.has_seed(), k.correction_words_size(), k.last_level_value_correction_size());
  for (auto& w : k.correction_words()) {
    s += F(";%d:%d", w.has_seed(), w.value_correction_size());
    for (auto& v : w.value_correction()) s += val(v);
  }
  for (auto& v : k.last_level_value_correction()) s += val(v);
  return s;
}

static std::map<std::string, std::string> shapes;

static void Ref(const Hier& h, Dpf& dpf, u128 alpha, const std::vector<Flat>& betas, bool full) {
  auto keys = HierKeys(h, dpf, alpha, betas);
  if (!keys.ok()) { Fail("keygen-refused", "%s", keys.status().ToString().c_str()); return; }
  RefDpf ref(h.d, h.t);
  const DpfKey* k[2] = {&keys->first, &keys->second};
  RefKeys rk = ref.Gen(alpha, betas, Blk(k[0]->seed()), Blk(k[1]->seed()));
  Trace(2);
  std::string at = F("alpha=%s", S(alpha).c_str());
  for (int p = 0; p < 2; ++p) {
    if (k[p]->party() != p) Fail("party", "%s: key %d has party %d", at.c_str(), p, k[p]->party());
    if (k[p]->correction_words_size() != (int)rk.cw.size()) { Fail("cw-count", "%s: %d, reference %zu", at.c_str(), k[p]->correction_words_size(), rk.cw.size()); return; }
    auto cmp = [&](const google::protobuf::RepeatedPtrField<dp::Value>& got, const std::vector<Flat>& want, const TypeOps& o, std::string where) {
      if (got.size() != (int)want.size()) { Fail("value-count", "%s %s: %d, reference %zu", at.c_str(), where.c_str(), got.size(), want.size()); return; }
      for (int i = 0; i < got.size(); ++i) {
        // Compared as an encoded message: the encoding is part of the format.
        if (got[i].SerializeAsString() != o.encode(want[i]).SerializeAsString())
          Fail("value-correction", "%s %s element %d: %s, reference %s", at.c_str(), where.c_str(), i, got[i].ShortDebugString().c_str(), Show(want[i].data(), o.n()).c_str());
      }
    };
    size_t hl = 0;
    for (size_t i = 0; i < rk.cw.size(); ++i) {
      auto& w = k[p]->correction_words(i);
      if (Blk(w.seed()) != rk.cw[i].seed) Fail("cw-seed", "%s level %zu: %s, reference %s", at.c_str(), i, S(Blk(w.seed())).c_str(), S(rk.cw[i].seed).c_str());
      if (w.control_left() != rk.cw[i].left || w.control_right() != rk.cw[i].right) Fail("cw-control", "%s level %zu", at.c_str(), i);
      const TypeOps* o = h.t[0];
      if (hl < ref.tree.size() && ref.tree[hl] == (int)i) o = h.t[hl++];
      cmp(w.value_correction(), rk.cw[i].value, *o, F("correction word %zu", i));
      State(Hash(w.SerializeAsString(), i));
      Trans();
    }
    cmp(k[p]->last_level_value_correction(), rk.last, *h.t.back(), "last level");
  }
  // The pair differs only in party and root seed.
  DpfKey a = *k[0], b = *k[1];
  a.clear_party(); a.clear_seed(); b.clear_party(); b.clear_seed();
  if (a.SerializeAsString() != b.SerializeAsString()) Fail("pair-differs", "%s: the keys differ in more than party and seed", at.c_str());
  std::string sh = Shape(*k[0]);
  auto& known = shapes[h.name];
  if (known.empty()) known = sh;
  if (known != sh || Shape(*k[1]) != sh) Fail("shape", "%s: %s versus %s", at.c_str(), sh.c_str(), known.c_str());
  // Shares.
  for (int lev = 0; lev < h.size(); ++lev) {
    const TypeOps& o = *h.t[lev];
    u128 target = Shr(alpha, h.last() - h.d[lev]);
    std::vector<u128> pts;
    if (full) for (u128 x = 0; x < Shl(1, h.d[lev]); ++x) pts.push_back(x);
    else {
      pts = {target, u128{0}, MaskBits(h.d[lev])};
      for (int b = 0; b < h.d[lev]; b += 3) pts.push_back(target ^ Shl(1, b));
    }
    for (int p = 0; p < 2; ++p) {
      auto r = o.at(dpf, *k[p], lev, pts);
      if (!r.ok() || o.Size(*r) != (int64_t)pts.size()) { Fail("at-refused", "%s: %s", at.c_str(), r.status().ToString().c_str()); return; }
      absl::StatusOr<Flat> e;
      if (full) {
        EvaluationContext c = *dpf.CreateEvaluationContext(*k[p]);
        e = o.until(dpf, lev, {}, c);
        if (!e.ok() || e->size() != r->size()) { Fail("until-refused", "%s: %s", at.c_str(), e.status().ToString().c_str()); return; }
      }
      for (size_t i = 0; i < pts.size(); ++i) {
        Flat want = ref.Eval(rk, p, lev, pts[i]);
        for (int j = 0; j < o.n(); ++j) {
          if ((*r)[i * o.n() + j] != want[j]) { Fail("share-at", "%s party %d level %d x=%s: %s, reference %s", at.c_str(), p, lev, S(pts[i]).c_str(), Show(&(*r)[i * o.n()], o.n()).c_str(), Show(want.data(), o.n()).c_str()); return; }
          if (full && (*e)[i * o.n() + j] != want[j]) { Fail("share-until", "%s party %d level %d x=%s: %s, reference %s", at.c_str(), p, lev, S(pts[i]).c_str(), Show(&(*e)[i * o.n()], o.n()).c_str(), Show(want.data(), o.n()).c_str()); return; }
        }
      }
      Trans(pts.size());
      State(HashFlat(*r));
      Trace();
    }
  }
}

static void Go(const Hier& h, int max_full, int nbeta) {
  bool ref = Mode("ref");
  bool full = h.last() <= max_full;
  std::vector<u128> alphas;
  if (full && h.last() <= 5) for (u128 a = 0; a < Shl(1, h.last()); ++a) alphas.push_back(a);
  else {
    u128 top = MaskBits(h.last());
    u128 p5 = absl::MakeUint128(0x5555555555555555ull, 0x5555555555555555ull);
    alphas = {0, 1, top, top - 1, top >> 1, p5 & top, (p5 << 1) & top, absl::MakeUint128(Mix(h.last()), Mix(h.last() + 500)) & top};
  }
  std::string name;
  if (h.size() > 8) name = F("1..%d%s", h.last(), h.t[0]->name.c_str());
  else name = h.name;
  if (!Case(F("%s/%s", ref ? "ref" : "share", name.c_str()))) return;
  auto dpf = MakeDpf(h);
  if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); return; }
  for (u128 a : alphas)
    for (int v = 0; v < nbeta; ++v) {
      // seeds: stream, then the degenerate ones
      if (v % 4 == 1) R().ResetConst(0xff);
      else if (v % 4 == 3) R().ResetScript(std::string(16, '\0') + std::string(16, '\xff'));
      else R().Reset(Hash(h.name) + absl::Uint128Low64(a) * 7 + v);
      std::vector<Flat> betas;
      for (int i = 0; i < h.size(); ++i) {
        auto all = Betas(*h.t[i], 6);
        betas.push_back(all[(v + i) % all.size()]);
      }
      if (ref) Ref(h, **dpf, a, betas, full);
      else Share(h, **dpf, a, betas, full);
    }
  Sample(F("%s: %zu alphas x %d betas, %s points", name.c_str(), alphas.size(), nbeta, full ? "all" : "boundary"));
}

static Hier MakeH(std::vector<int> d, std::vector<const TypeOps*> t) {
  Hier h;
  h.d = d;
  h.t = t;
  h.name = HierName(h);
  return h;
}

void VpRun() {
  auto& all = AllTypes();
  bool ref = Mode("ref");
  for (auto& o : all) {
    for (int n = 0; n <= Pick(7, 10); ++n) Go(MakeH({n}, {&o}), Pick(7, 10), n <= 4 ? 6 : 3);
    for (int n : {20, 58}) Go(MakeH({n}, {&o}), 0, 2);
    if (o.leaves.size() == 1 || true) for (int n : {64, 65, 127, 128}) Go(MakeH({n}, {&o}), 0, 2);
    for (auto& d : std::vector<std::vector<int>>{{0, 1}, {1, 2}, {0, 4}, {1, 5}, {2, 3, 4}, {0, 1, 2, 3}, {3, 4, 5}, {4, 7}})
      Go(MakeH(d, std::vector<const TypeOps*>(d.size(), &o)), 7, 3);
  }
  // Mixed types on adjacent levels: all ordered pairs of types.
  for (size_t i = 0; i < all.size(); ++i)
    for (size_t j = 0; j < all.size(); ++j) {
      if (i == j) continue;
      if (!Thorough() && (i * 31 + j * 17) % 3 != 0) continue;
      Go(MakeH({1, 3}, {&all[i], &all[j]}), 7, 2);
      if (Thorough()) Go(MakeH({0, 2, 4}, {&all[i], &all[j], &all[i]}), 7, 3);
    }
  // Every value of the one-byte and small-modulus types.
  for (auto& o : all) {
    if (o.n() != 1) continue;
    u128 count = o.leaves[0].kind == kMod ? o.leaves[0].mod : o.leaves[0].bits == 8 ? u128{256} : u128{0};
    if (count == 0 || count > 256) continue;
    for (int n : {0, 1, 3}) {
      Hier h = MakeH({n}, {&o});
      if (!Case(F("values/%s/n%d", o.name.c_str(), n))) continue;
      auto dpf = MakeDpf(h);
      if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
      for (u128 b = 0; b < count; ++b)
        for (u128 a = 0; a < Shl(1, n); ++a) {
          R().Reset(absl::Uint128Low64(b) * 99 + absl::Uint128Low64(a));
          if (ref) Ref(h, **dpf, a, {{b}}, true);
          else Share(h, **dpf, a, {{b}}, true);
        }
    }
  }
  // Many levels.
  for (const char* n : {"u8", "u32", "u128", "xor64", "(u8,u16)", "mod32_4294967291"}) {
    const TypeOps* o = TypeByName(n);
    for (int len : {8, 40, 64, 128}) {
      std::vector<int> d;
      for (int i = 1; i <= len; ++i) d.push_back(i);
      Go(MakeH(d, std::vector<const TypeOps*>(d.size(), o)), 0, 1);
    }
  }
}
