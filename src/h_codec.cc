// P06: encoding, decoding and rejection of values, for every type.
#include <cmath>

#include "dpf/internal/value_type_helpers.h"
#include "hier.h"
#include "type_list.h"
using namespace vp;
namespace di = dp::dpf_internal;

static u128 ModOf(const dp::ValueType& t) {
  auto& m = t.int_mod_n().modulus();
  return m.value_case() == dp::Value::Integer::kValueUint128
             ? absl::MakeUint128(m.value_uint128().high(), m.value_uint128().low())
             : u128{m.value_uint64()};
}
static bool GetInt(const dp::Value::Integer& v, u128* out) {
  if (v.value_case() == dp::Value::Integer::kValueUint64) *out = v.value_uint64();
  else if (v.value_case() == dp::Value::Integer::kValueUint128) *out = absl::MakeUint128(v.value_uint128().high(), v.value_uint128().low());
  else return false;
  return true;
}
// The documented meaning of an encoded value under a type.
static bool Model(const dp::ValueType& t, const dp::Value& v, Flat* out) {
  u128 x = 0;
  switch (t.type_case()) {
    case dp::ValueType::kInteger:
      if (v.value_case() != dp::Value::kInteger || !GetInt(v.integer(), &x)) return false;
      if (x & ~MaskBits(t.integer().bitsize())) return false;
      out->push_back(x);
      return true;
    case dp::ValueType::kXorWrapper:
      if (v.value_case() != dp::Value::kXorWrapper || !GetInt(v.xor_wrapper(), &x)) return false;
      if (x & ~MaskBits(t.xor_wrapper().bitsize())) return false;
      out->push_back(x);
      return true;
    case dp::ValueType::kIntModN:
      if (v.value_case() != dp::Value::kIntModN || !GetInt(v.int_mod_n(), &x)) return false;
      if (x >= ModOf(t)) return false;
      out->push_back(x);
      return true;
    case dp::ValueType::kTuple:
      if (v.value_case() != dp::Value::kTuple || v.tuple().elements_size() != t.tuple().elements_size()) return false;
      for (int i = 0; i < t.tuple().elements_size(); ++i)
        if (!Model(t.tuple().elements(i), v.tuple().elements(i), out)) return false;
      return true;
    default: return false;
  }
}

static void SetInt(dp::Value::Integer* i, u128 x, bool wide) {
  if (wide) { i->mutable_value_uint128()->set_high(absl::Uint128High64(x)); i->mutable_value_uint128()->set_low(absl::Uint128Low64(x)); }
  else i->set_value_uint64(absl::Uint128Low64(x));
}
// All leaf encodings over a set of numbers, every kind, both widths, plus unset parts.
static std::vector<dp::Value> LeafValues(const std::vector<u128>& nums) {
  std::vector<dp::Value> out;
  out.emplace_back();  // nothing set
  for (int kind = 0; kind < 3; ++kind) {
    auto mk = [&](dp::Value& v) { return kind == 0 ? v.mutable_integer() : kind == 1 ? v.mutable_int_mod_n() : v.mutable_xor_wrapper(); };
    dp::Value e;
    mk(e);
    out.push_back(e);
    for (u128 x : nums)
      for (int wide = 0; wide < 2; ++wide) {
        if (!wide && absl::Uint128High64(x)) continue;
        dp::Value v;
        SetInt(mk(v), x, wide);
        out.push_back(v);
      }
  }
  dp::Value t;
  t.mutable_tuple();
  out.push_back(t);
  return out;
}
static std::vector<u128> Limits(const TypeOps& o) {
  std::set<u128> s = {0, 1, u128{1} << 64, (u128{1} << 64) + 1, ~u128{0}, u128{1} << 127, absl::MakeUint128(5, 0), absl::MakeUint128(1, 200)};
  for (auto& l : o.leaves)
    for (u128 b : {l.kind == kMod ? l.mod : u128{0}, l.bits < 128 ? u128{1} << l.bits : u128{0}})
      for (int d : {-1, 0, 1}) s.insert(b + u128(d < 0 ? ~u128{0} : u128(d)));
  for (int b : {8, 16, 32}) { s.insert((u128{1} << b) - 1); s.insert(u128{1} << b); s.insert((u128{1} << 64) + (u128{1} << b) - 1); }
  return std::vector<u128>(s.begin(), s.end());
}

static void CheckDecode(const TypeOps& o, const dp::Value& v, Dpf* dpf, int n) {
  Flat want;
  bool ok = Model(o.vt, v, &want);
  auto got = o.decode(v);
  Trans();
  Trace();
  State(Hash(v.SerializeAsString()));
  if (ok != got.ok()) {
    Fail(ok ? "refused" : "accepted", "%s as %s: %s", v.ShortDebugString().c_str(), o.name.c_str(),
         got.ok() ? ("decoded to " + Show(got->data(), o.n())).c_str() : got.status().ToString().c_str());
  } else if (ok && *got != want) {
    Fail("wrong", "%s as %s: decoded to %s", v.ShortDebugString().c_str(), o.name.c_str(), Show(got->data(), o.n()).c_str());
  } else if (!ok && !absl::IsInvalidArgument(got.status())) {
    Fail("error-kind", "%s as %s: %s", v.ShortDebugString().c_str(), o.name.c_str(), got.status().ToString().c_str());
  }
  if (dpf) {  // the run-time typed path: key generation for this value
    R().Reset(3);
    auto keys = dpf->GenerateKeys(1, v);
    Trans();
    if (keys.ok() != ok) {
      Fail(ok ? "keygen-refused" : "keygen-accepted", "%s as %s: %s", v.ShortDebugString().c_str(), o.name.c_str(), keys.ok() ? "OK" : keys.status().ToString().c_str());
    } else if (!ok && !absl::IsInvalidArgument(keys.status())) {
      Fail("keygen-error-kind", "%s as %s: %s", v.ShortDebugString().c_str(), o.name.c_str(), keys.status().ToString().c_str());
    } else if (ok) {
      for (u128 x : {u128{0}, u128{1}}) {
        auto a = o.at(*dpf, keys->first, 0, {x}), b = o.at(*dpf, keys->second, 0, {x});
        if (!a.ok() || !b.ok()) Fail("keygen-eval", "%s as %s: %s", v.ShortDebugString().c_str(), o.name.c_str(), a.status().ToString().c_str());
        else if (!SumIs(o, a->data(), b->data(), x == 1 ? want.data() : nullptr)) Fail("keygen-value", "%s as %s at %s", v.ShortDebugString().c_str(), o.name.c_str(), S(x).c_str());
      }
    }
  }
}

static void RunCodec() {
  auto& all = AllTypes();
  // Type descriptors are equal exactly when the types are.
  for (size_t i = 0; i < all.size(); ++i) {
    if (!Case("types/" + all[i].name)) continue;
    for (size_t j = 0; j < all.size(); ++j) {
      auto eq = di::ValueTypesAreEqual(all[i].vt, all[j].vt);
      Trans(); Trace(); State(j);
      if (!eq.ok() || *eq != (i == j)) Fail("type-equality", "%s and %s: %s", all[i].name.c_str(), all[j].name.c_str(), eq.ok() ? (*eq ? "equal" : "different") : eq.status().ToString().c_str());
    }
    // The descriptor spells out the type.
    std::vector<Leaf> leaves;
    std::function<void(const dp::ValueType&)> walk = [&](const dp::ValueType& t) {
      switch (t.type_case()) {
        case dp::ValueType::kInteger: leaves.push_back({kInt, t.integer().bitsize(), 0}); break;
        case dp::ValueType::kXorWrapper: leaves.push_back({kXor, t.xor_wrapper().bitsize(), 0}); break;
        case dp::ValueType::kIntModN: leaves.push_back({kMod, t.int_mod_n().base_integer().bitsize(), ModOf(t)}); break;
        case dp::ValueType::kTuple: for (auto& e : t.tuple().elements()) walk(e); break;
        default: Fail("descriptor", "%s: unset", all[i].name.c_str());
      }
    };
    walk(all[i].vt);
    bool same = leaves.size() == all[i].leaves.size();
    for (size_t k = 0; same && k < leaves.size(); ++k)
      same = leaves[k].kind == all[i].leaves[k].kind && leaves[k].bits == all[i].leaves[k].bits && leaves[k].mod == all[i].leaves[k].mod;
    if (!same) Fail("descriptor", "%s: %s", all[i].name.c_str(), all[i].vt.ShortDebugString().c_str());
  }
  for (auto& o : all) {
    // Round trip of boundary values and, for one-byte types, of all values.
    if (Case("roundtrip/" + o.name)) {
      std::vector<Flat> vals = Betas(o, 6);
      std::vector<std::vector<u128>> per;
      for (auto& l : o.leaves) {
        std::vector<u128> c = {0, 1, l.kind == kMod ? l.mod - 1 : MaskBits(l.bits)};
        if (l.bits == 128) { u128 m = l.kind == kMod ? l.mod : ~u128{0}; for (u128 x : {u128{1} << 63, (u128{1} << 64) - 1, u128{1} << 64, (u128{1} << 64) + 1}) if (x < m) c.push_back(x); }
        per.push_back(c);
      }
      Flat cur(o.n());
      std::function<void(int)> rec = [&](int i) {
        if (vals.size() > 4000) return;
        if (i == o.n()) { vals.push_back(cur); return; }
        for (u128 x : per[i]) { cur[i] = x; rec(i + 1); }
      };
      rec(0);
      if (o.n() == 1 && o.leaves[0].bits <= 16) {
        u128 top = o.leaves[0].kind == kMod ? o.leaves[0].mod : u128{1} << o.leaves[0].bits;
        for (u128 x = 0; x < top; ++x) vals.push_back({x});
      }
      for (auto& f : vals) {
        dp::Value v = o.encode(f);
        Flat m;
        Trans(); Trace(); State(HashFlat(f));
        if (!Model(o.vt, v, &m) || m != f) { Fail("encode", "%s %s encoded as %s", o.name.c_str(), Show(f.data(), o.n()).c_str(), v.ShortDebugString().c_str()); continue; }
        auto d = o.decode(v);
        if (!d.ok() || *d != f) Fail("roundtrip", "%s %s: %s", o.name.c_str(), Show(f.data(), o.n()).c_str(), d.ok() ? Show(d->data(), o.n()).c_str() : d.status().ToString().c_str());
      }
    }
    // Every encoded value from the grammar.
    if (Case("decode/" + o.name)) {
      auto dpf = MakeDpf({{2}, {&o}, ""});
      if (!dpf.ok()) { Fail("create-refused", "%s", dpf.status().ToString().c_str()); continue; }
      auto leaves = LeafValues(Limits(o));
      for (auto& v : leaves) CheckDecode(o, v, dpf->get(), 2);
      // Tuples over small leaf sets: all tuples of size 1..3.
      std::vector<dp::Value> small = LeafValues({1, 251, u128{1} << 64});
      std::vector<dp::Value> nested = small;
      for (auto& a : small) {
        dp::Value t;
        *t.mutable_tuple()->add_elements() = a;
        CheckDecode(o, t, nullptr, 1);
        for (auto& b : small) {
          dp::Value t2 = t;
          *t2.mutable_tuple()->add_elements() = b;
          CheckDecode(o, t2, nullptr, 1);
          if (o.vt.type_case() != dp::ValueType::kTuple || o.vt.tuple().elements_size() != 3) continue;
          for (auto& c : small) {
            dp::Value t3 = t2;
            *t3.mutable_tuple()->add_elements() = c;
            CheckDecode(o, t3, nullptr, 1);
          }
        }
      }
      // Every single-leaf damage of a good value: each leaf replaced by each leaf encoding,
      // dropped, duplicated.
      for (auto& f : Betas(o, 3)) {
        dp::Value good = o.encode(f);
        CheckDecode(o, good, dpf->get(), 2);
        std::function<void(dp::Value*)> damage = [&](dp::Value* at) {
          dp::Value keep = *at;
          for (auto& l : leaves) { *at = l; CheckDecode(o, good, dpf->get(), 2); }
          *at = keep;
          { dp::Value wrap; *wrap.mutable_tuple()->add_elements() = keep; *at = wrap; CheckDecode(o, good, dpf->get(), 2); *at = keep; }
          if (keep.value_case() == dp::Value::kTuple) {
            auto* el = at->mutable_tuple()->mutable_elements();
            *at->mutable_tuple()->add_elements() = keep.tuple().elements(0);
            CheckDecode(o, good, dpf->get(), 2);
            *at = keep;
            at->mutable_tuple()->mutable_elements()->RemoveLast();
            CheckDecode(o, good, dpf->get(), 2);
            *at = keep;
            for (int i = 0; i + 1 < keep.tuple().elements_size(); ++i) {
              at->mutable_tuple()->mutable_elements()->SwapElements(i, i + 1);
              CheckDecode(o, good, dpf->get(), 2);
              *at = keep;
            }
            (void)el;
            for (int i = 0; i < keep.tuple().elements_size(); ++i) damage(at->mutable_tuple()->mutable_elements(i));
          }
        };
        damage(&good);
      }
      // A value of every other type.
      for (auto& q : all) for (auto& f : Betas(q, 4)) CheckDecode(o, q.encode(f), nullptr, 1);
    }
  }
  Sample("every leaf kind x {unset, 64-bit, 128-bit} x type limits; single-leaf damage of every type's values");
}

void VpRun() { RunCodec(); }
