// An independent statement of which messages are well-formed, and the reference
// construction evaluated on well-formed keys.
#ifndef VP_WELLFORMED_H_
#define VP_WELLFORMED_H_
#include "hier.h"
#include "ref_dpf.h"
namespace vp {
namespace {
using dp::ValueType;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
// ---------------------------------------------------------------- well-formedness
bool GetInt(const dp::Value::Integer& i, u128* out) {
  if (i.value_case() == dp::Value::Integer::kValueUint64) *out = i.value_uint64();
  else if (i.value_case() == dp::Value::Integer::kValueUint128) *out = absl::MakeUint128(i.value_uint128().high(), i.value_uint128().low());
  else return false;
  return true;
}
// Decodes a value of the given (well-formed) type into leaves.
bool GetValue(const ValueType& t, const dp::Value& v, Flat* out) {
  u128 x;
  switch (t.type_case()) {
    case ValueType::kInteger:
      if (v.value_case() != dp::Value::kInteger || !GetInt(v.integer(), &x) || (x & ~MaskBits(t.integer().bitsize())) != 0) return false;
      out->push_back(x);
      return true;
    case ValueType::kXorWrapper:
      if (v.value_case() != dp::Value::kXorWrapper || !GetInt(v.xor_wrapper(), &x) || (x & ~MaskBits(t.xor_wrapper().bitsize())) != 0) return false;
      out->push_back(x);
      return true;
    case ValueType::kIntModN: {
      u128 n;
      GetInt(t.int_mod_n().modulus(), &n);
      if (v.value_case() != dp::Value::kIntModN || !GetInt(v.int_mod_n(), &x) || x >= n) return false;
      out->push_back(x);
      return true;
    }
    case ValueType::kTuple:
      if (v.value_case() != dp::Value::kTuple || v.tuple().elements_size() != t.tuple().elements_size()) return false;
      for (int i = 0; i < t.tuple().elements_size(); ++i)
        if (!GetValue(t.tuple().elements(i), v.tuple().elements(i), out)) return false;
      return true;
    default: return false;
  }
}

struct KeyInfo {
  bool ok = false;                // structurally valid
  std::vector<bool> level_ok;     // value correction of each hierarchy level usable
  int party = 0;
  RefKeys ref;                    // seed[party] is the key's
};

KeyInfo Classify(const Hier& h, const RefDpf& m, const DpfKey& k) {
  KeyInfo r;
  r.level_ok.assign(h.size(), false);
  if (!k.has_seed() || (k.party() != 0 && k.party() != 1)) return r;
  if (k.correction_words_size() != m.Height() || k.last_level_value_correction().empty()) return r;
  for (int i = 0; i + 1 < h.size(); ++i)
    if (k.correction_words(m.tree[i]).value_correction().empty()) return r;
  r.ok = true;
  r.party = k.party();
  r.ref.seed[0] = r.ref.seed[1] = absl::MakeUint128(k.seed().high(), k.seed().low());
  for (auto& w : k.correction_words()) {
    RefCw c;
    c.seed = absl::MakeUint128(w.seed().high(), w.seed().low());
    c.left = w.control_left();
    c.right = w.control_right();
    r.ref.cw.push_back(c);
  }
  for (int i = 0; i < h.size(); ++i) {
    bool last = i + 1 == h.size();
    auto& vc = last ? k.last_level_value_correction() : k.correction_words(m.tree[i]).value_correction();
    std::vector<Flat> fl;
    bool ok = vc.size() == m.t[i].per_block;
    for (auto& v : vc) {
      Flat f;
      ok = ok && GetValue(h.t[i]->vt, v, &f);
      fl.push_back(f);
    }
    r.level_ok[i] = ok;
    if (last) r.ref.last = fl;
    else r.ref.cw[m.tree[i]].value = fl;
  }
  return r;
}

// Share at point x of level `lev`, walking from (seed, control) at tree level `from`.
Flat WalkFrom(const RefDpf& m, const KeyInfo& k, u128 s, bool c, int from, int lev, u128 x) {
  int bits = m.d[lev] - m.tree[lev];
  u128 path = Shr(x, bits);
  for (int level = from; level < m.tree[lev]; ++level) {
    u128 e[2];
    bool ec[2];
    RefDpf::Expand(s, e, ec);
    bool bit = (Shr(path, m.tree[lev] - 1 - level) & 1) != 0;
    s = e[bit];
    bool nc = ec[bit];
    if (c) {
      // The lowest bit of a seed carries the control bit, so a corrected seed
      // with an odd correction word also flips the control bit.
      nc ^= bit ? k.ref.cw[level].right : k.ref.cw[level].left;
      nc ^= (k.ref.cw[level].seed & 1) != 0;
      s ^= k.ref.cw[level].seed & ~u128{1};
    }
    c = nc;
  }
  int idx = static_cast<int>(absl::Uint128Low64(x) & ((1u << bits) - 1));
  Flat f = m.t[lev].Expand(s)[idx];
  auto& corr = lev + 1 == (int)m.d.size() ? k.ref.last : k.ref.cw[m.tree[lev]].value;
  for (size_t i = 0; i < f.size(); ++i) {
    const Leaf& l = m.t[lev].leaves[i];
    if (c) f[i] = RefAdd(l, f[i], corr[idx][i]);
    if (k.party) f[i] = RefNeg(l, f[i]);
  }
  return f;
}

// What a call has to do. kAny: any answer, but no crash.
enum What { kRefuse, kValue, kAny };
struct Spec {
  What what = kRefuse;
  Flat value;
};

bool BadRequest(const absl::Status& s) {
  return s.code() == absl::StatusCode::kInvalidArgument || s.code() == absl::StatusCode::kFailedPrecondition ||
         s.code() == absl::StatusCode::kUnimplemented || s.code() == absl::StatusCode::kOutOfRange;
}

void Judge(const char* api, const std::string& what, const Spec& s, const absl::StatusOr<Flat>& r) {
  Trans();
  if (s.what == kAny) return;
  if (s.what == kRefuse) {
    if (r.ok()) Fail(std::string(api) + "-accepted", "%s: malformed input answered with OK", what.c_str());
    else if (!BadRequest(r.status())) Fail(std::string(api) + "-code", "%s: %s", what.c_str(), r.status().ToString().c_str());
    return;
  }
  if (!r.ok()) Fail(std::string(api) + "-refused", "%s: well-formed input refused: %s", what.c_str(), r.status().ToString().c_str());
  else if (*r != s.value) Fail(std::string(api) + "-wrong", "%s: wrong share", what.c_str());
}

// ---------------------------------------------------------------- parameters
double Log2(u128 x) { return std::log2((double)absl::Uint128High64(x) * 18446744073709551616.0 + (double)absl::Uint128Low64(x)); }
struct TypeCheck {
  int ok = 1;  // 1 valid, 0 invalid, -1 no statement
  int bits = 0;
};
void CheckType(const ValueType& t, double sec, TypeCheck* r, bool top = true) {
  auto integer = [&](const ValueType::Integer& i) {
    int b = i.bitsize();
    if (b < 1 || b > 128 || (b & (b - 1))) r->ok = 0;
    else r->bits += b;
  };
  switch (t.type_case()) {
    case ValueType::kInteger: integer(t.integer()); return;
    case ValueType::kXorWrapper: integer(t.xor_wrapper()); return;
    case ValueType::kIntModN: {
      integer(t.int_mod_n().base_integer());
      u128 n;
      if (!GetInt(t.int_mod_n().modulus(), &n) || n == 0) { r->ok = 0; return; }
      if (r->ok == 0) return;
      int b = t.int_mod_n().base_integer().bitsize();
      if (b < 128 && (n >> b) != 0) { r->ok = 0; return; }
      double level = 128 + 3 - (Log2(n) + 0 + 1);
      if (top && std::abs(level - sec) < 2) { r->ok = -1; return; }
      if (!top || b < 8) { if (r->ok) r->ok = -1; return; }
      if (sec > level) r->ok = 0;
      return;
    }
    case ValueType::kTuple:
      for (auto& e : t.tuple().elements()) {
        CheckType(e, sec, r, false);
        if (r->ok == 0) return;
      }
      return;
    default: r->ok = 0;
  }
}
ValueType Int(int b) { ValueType v; v.mutable_integer()->set_bitsize(b); return v; }
ValueType Xor(int b) { ValueType v; v.mutable_xor_wrapper()->set_bitsize(b); return v; }
ValueType Mod(int b, u128 n, int form) {
  ValueType v;
  v.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(b);
  if (form == 0) v.mutable_int_mod_n()->mutable_modulus()->set_value_uint64(absl::Uint128Low64(n));
  else if (form == 1) {
    v.mutable_int_mod_n()->mutable_modulus()->mutable_value_uint128()->set_high(absl::Uint128High64(n));
    v.mutable_int_mod_n()->mutable_modulus()->mutable_value_uint128()->set_low(absl::Uint128Low64(n));
  } else if (form == 2) v.mutable_int_mod_n()->mutable_modulus();
  return v;
}
ValueType Tup(const std::vector<ValueType>& e) {
  ValueType v;
  v.mutable_tuple();
  for (auto& x : e) *v.mutable_tuple()->add_elements() = x;
  return v;
}
}  // namespace
}  // namespace vp
#endif
