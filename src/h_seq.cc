// P34: calls do not influence each other. Every sequence of calls up to a bound,
// every nesting of one call in a callback of another and every interleaving of
// independent multi-step uses gives what each call gives alone in a new process.
#include <sys/mman.h>
#include <sys/wait.h>

#include <array>
#include <memory>

#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir_common.h"
#include "types.h"
using namespace vp;

namespace {
namespace fg = dp::fss_gates;
using Dcf = dp::DistributedComparisonFunction;
using Gate = fg::MultipleIntervalContainmentGate;
using Block = dp::XorWrapper<u128>;
using Mod = dp::IntModN<uint32_t, 4294967291u>;
using Pair = dp::Tuple<uint32_t, uint64_t>;
using Mods = dp::Tuple<Mod, Mod>;
using Riap = dp::Tuple<uint64_t, uint32_t>;  // described in as many bytes as Pair

// ---------------------------------------------------------------- outcomes
// What a call gave, as text: long results are cut to a digest.
struct Out {
  std::string s;
  void Text(const std::string& t) {
    s += t.size() <= 24 ? Printable(t) : F("#%zu:%016llx", t.size(), (unsigned long long)Hash(t));
    s += ' ';
  }
  void operator()(const absl::Status& t) { s += t.ok() ? "ok " : "ERROR " + t.ToString() + " "; }
  void operator()(const std::string& t) { Text(t); }
  void operator()(uint64_t x) { s += F("%llu ", (unsigned long long)x); }
  void operator()(int x) { s += F("%d ", x); }
  void operator()(bool x) { s += x ? "yes " : "no "; }
  void operator()(u128 x) { s += S(x) + " "; }
  void operator()(const google::protobuf::MessageLite& m) { Text(m.SerializeAsString()); }
  void operator()(const absl::optional<std::string>& t) { if (t) Text("=" + *t); else Text("none"); }
  void operator()(const std::pair<std::string, std::string>& t) { Text(t.first), Text(t.second); }
  template <typename A, typename B>
  void operator()(const std::pair<A, B>& p) { (*this)(p.first), (*this)(p.second); }
  template <typename T>
  auto operator()(const T& t) -> decltype(TR<T>::Name(), void()) {
    std::vector<u128> f;
    TR<T>::Flat(t, f);
    Many(f);
  }
  void Many(const std::vector<u128>& f) {
    if (f.size() <= 2) for (u128 x : f) s += S(x) + " ";
    else Text(std::string(reinterpret_cast<const char*>(f.data()), f.size() * 16));
  }
  template <typename T>
  void operator()(const std::vector<T>& v) {
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, absl::optional<std::string>> || std::is_same_v<T, std::pair<std::string, std::string>>) {
      (*this)((uint64_t)v.size());
      for (auto& x : v) (*this)(x);
    } else {
      s += F("%zu of ", v.size());
      Many(Flatten(v));
    }
  }
  template <typename T>
  void operator()(const absl::StatusOr<T>& r) {
    if (r.ok()) (*this)(*r);
    else (*this)(r.status());
  }
};

// ---------------------------------------------------------------- environment
using Inputs = std::map<std::string, std::string>;
Inputs in;
// How message arguments are held: one object overwritten again and again, a new
// object per call, or one object per message for the whole process.
int hold = 0;
template <typename M>
struct Held {
  static M& Slot(int i) {
    static auto* v = new std::array<M, 4>;
    return (*v)[i];
  }
  const M* m;
  std::unique_ptr<M> own;
  const std::string* bytes;
  Held(const std::string& name, int slot = 0) {
    auto it = in.find(name);
    if (it == in.end()) { fprintf(stderr, "no input %s\n", name.c_str()); abort(); }
    bytes = &it->second;
    if (hold == 0) {
      if (!Slot(slot).ParseFromString(*bytes)) abort();
      m = &Slot(slot);
    } else if (hold == 1) {
      own = std::make_unique<M>();
      if (!own->ParseFromString(*bytes)) abort();
      m = own.get();
    } else {
      static auto* all = new std::map<std::string, M>;
      auto e = all->emplace(name, M());
      if (e.second && !e.first->second.ParseFromString(*bytes)) abort();
      m = &e.first->second;
    }
  }
  const M& operator*() const { return *m; }
  const M* operator->() const { return m; }
  // Calls leave their arguments as they were.
  void Check(Out& o) const {
    if (m->SerializeAsString() != *bytes) o.s += "ARGUMENT CHANGED ";
  }
};
// An object of the library: one per name for the whole process, or (names that
// start with "slot") made again whenever another one was in the place.
template <typename T>
T& Object(const std::string& name, std::function<absl::StatusOr<std::unique_ptr<T>>()> make) {
  static auto* all = new std::map<std::string, std::unique_ptr<T>>;
  static auto* slot_name = new std::string;
  static auto* slot = new std::unique_ptr<T>;
  auto build = [&] {
    auto x = make();
    if (!x.ok()) { fprintf(stderr, "make %s: %s\n", name.c_str(), x.status().ToString().c_str()); abort(); }
    return std::move(*x);
  };
  if (name.substr(0, 4) == "slot") {
    if (*slot_name != name) {
      slot->reset();
      *slot = build();
      *slot_name = name;
    }
    return **slot;
  }
  auto& p = (*all)[name];
  if (!p) p = build();
  return *p;
}
struct Op {
  std::string name;
  std::function<void(Out&)> run;
};
std::string Run(const Op& op) {
  R().Reset(Hash(op.name));
  Out o;
  op.run(o);
  return o.s;
}

// ---------------------------------------------------------------- DPF objects
DpfParameters P(int log, const dp::ValueType& t) {
  DpfParameters p;
  p.set_log_domain_size(log);
  *p.mutable_value_type() = t;
  return p;
}
template <typename T> DpfParameters P(int log) { return P(log, dp::ToValueType<T>()); }
Dpf& Plain(const std::string& name = "plain") {
  return Object<Dpf>("dpf:" + name, [] { return Dpf::Create(P<uint64_t>(9)); });
}
Dpf& Tree() {
  return Object<Dpf>("tree", []() -> absl::StatusOr<std::unique_ptr<Dpf>> {
    auto d = Dpf::CreateIncremental({P<uint16_t>(2), P<uint32_t>(5), P<Pair>(9)});
    if (d.ok()) (*d)->RegisterValueType<Pair>().IgnoreError();
    return d;
  });
}
Dpf& Even() { return Object<Dpf>("even", [] { return Dpf::CreateIncremental({P<uint64_t>(3), P<uint64_t>(6), P<uint64_t>(11)}); }); }
template <typename T>
Dpf& Couple(const std::string& name) {
  return Object<Dpf>(name, []() -> absl::StatusOr<std::unique_ptr<Dpf>> {
    auto d = Dpf::Create(P<T>(5));
    if (d.ok()) (*d)->template RegisterValueType<T>().IgnoreError();
    return d;
  });
}
Dpf& Modular() {
  return Object<Dpf>("mods", []() -> absl::StatusOr<std::unique_ptr<Dpf>> {
    auto d = Dpf::Create(P<Mods>(6));
    if (d.ok()) (*d)->RegisterValueType<Mods>().IgnoreError();
    return d;
  });
}
template <typename T>
Dpf& InSlot(int log) {
  return Object<Dpf>(F("slot-%d-%s", log, TR<T>::Name().c_str()), [log] { return Dpf::Create(P<T>(log)); });
}
dp::DcfParameters DP(int log, const dp::ValueType& t) {
  dp::DcfParameters p;
  *p.mutable_parameters() = P(log, t);
  return p;
}
template <typename T>
Dcf& Compare(int log, const char* place = "dcf") {
  return Object<Dcf>(F("%s-%d-%s", place, log, TR<T>::Name().c_str()), [log] { return Dcf::Create(DP(log, dp::ToValueType<T>())); });
}
Gate& MakeGate(const std::string& name, int log, std::vector<std::array<int, 2>> iv) {
  return Object<Gate>(name, [log, iv] {
    fg::MicParameters p;
    p.set_log_group_size(log);
    for (auto& i : iv) {
      auto* x = p.add_intervals();
      x->mutable_lower_bound()->set_value_uint64(i[0]);
      x->mutable_upper_bound()->set_value_uint64(i[1]);
    }
    return Gate::Create(p);
  });
}
Gate& GateA() { return MakeGate("gate-a", 6, {{5, 20}, {0, 63}}); }
Gate& GateB(const char* n = "gate-b") { return MakeGate(n, 6, {{7, 7}, {30, 40}}); }
Gate& GateC(const char* n = "slot-gate-c") { return MakeGate(n, 6, {{0, 30}, {31, 63}}); }

// ---------------------------------------------------------------- retrieval objects
using DenseDb = dp::DenseDpfPirServer::Database;
using SimpleDb = dp::SimpleHashingSparseDpfPirServer::Database;
using CuckooDb = dp::CuckooHashingSparseDpfPirServer::Database;
using DS = dp::DenseDpfPirServer;
using SS = dp::SimpleHashingSparseDpfPirServer;
using CS = dp::CuckooHashingSparseDpfPirServer;
constexpr int kRows = 140;
std::string RowOf(int i, int salt) { return std::string((i * (salt + 3) + salt) % 37 + 1, char('a' + (i + salt) % 23)) + char(i); }
std::string KeyOf(int i) { return F("key %d", i); }
absl::StatusOr<std::unique_ptr<DenseDb>> MakeDense(int salt, int rows = kRows) {
  dp::DenseDpfPirDatabase::Builder b;
  for (int i = 0; i < rows; ++i) b.Insert(RowOf(i, salt));
  return b.Build();
}
template <typename T>
T HashParams(int salt) {
  T p;
  p.set_num_buckets(200);
  p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed(F("family seed %d", salt));
  return p;
}
dp::SimpleHashingParams SimpleParams(int salt = 0) { return HashParams<dp::SimpleHashingParams>(salt); }
dp::CuckooHashingParams CuckooParams(int salt = 0) {
  auto p = HashParams<dp::CuckooHashingParams>(salt);
  p.set_num_hash_functions(3);
  return p;
}
absl::StatusOr<std::unique_ptr<SimpleDb>> MakeSimple(int salt) {
  dp::SimpleHashedDpfPirDatabase::Builder b;
  b.SetParams(SimpleParams());
  for (int i = 0; i < 9; ++i) b.Insert({KeyOf(i * (salt + 1)), RowOf(i, salt)});
  return b.Build();
}
// So few keys that no key is ever evicted: the layout is always the same.
absl::StatusOr<std::unique_ptr<CuckooDb>> MakeCuckoo(int salt) {
  dp::CuckooHashedDpfPirDatabase::Builder b;
  b.SetParams(CuckooParams());
  for (int i = 0; i < 3; ++i) b.Insert({KeyOf(i * (salt + 1)), RowOf(i, salt)});
  return b.Build();
}
dp::PirConfig DenseConfig(int rows = kRows) {
  dp::PirConfig c;
  c.mutable_dense_dpf_pir_config()->set_num_elements(rows);
  return c;
}
std::function<void()> in_seal, in_open, in_send;  // calls made from callbacks
absl::StatusOr<std::string> Seal(absl::string_view p, absl::string_view c) {
  if (in_seal) in_seal();
  return std::string(p.rbegin(), p.rend()) + std::string(c);
}
absl::StatusOr<std::string> Open(absl::string_view p, absl::string_view c) {
  if (in_open) in_open();
  if (p.size() < c.size()) return absl::InvalidArgumentError("short");
  p.remove_suffix(c.size());
  return std::string(p.rbegin(), p.rend());
}
dp::PirServerPublicParams Published(bool simple) {
  dp::PirServerPublicParams pp;
  if (simple) *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = SimpleParams();
  else *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = CuckooParams();
  return pp;
}
using Server = dp::DpfPirServer;
template <typename T>
absl::StatusOr<std::unique_ptr<Server>> Up(absl::StatusOr<std::unique_ptr<T>> x) {
  if (!x.ok()) return x.status();
  return std::unique_ptr<Server>(std::move(*x));
}
Server& DenseServer(int salt, const char* place = "dense") {
  return Object<Server>(F("%s-server-%d", place, salt), [salt] { return Up(DS::CreatePlain(DenseConfig(), *MakeDense(salt))); });
}
Server& SimpleServer(int salt) {
  return Object<Server>(F("simple-server-%d", salt), [salt] { return Up(SS::CreatePlain(SimpleParams(), *MakeSimple(salt))); });
}
Server& CuckooServer(int salt) {
  return Object<Server>(F("cuckoo-server-%d", salt), [salt] { return Up(CS::CreatePlain(CuckooParams(), *MakeCuckoo(salt))); });
}
Server& Helper(int kind) {
  return Object<Server>(F("helper-%d", kind), [kind] {
    return kind == 0 ? Up(DS::CreateHelper(DenseConfig(), *MakeDense(0), Open)) : kind == 1 ? Up(SS::CreateHelper(SimpleParams(), *MakeSimple(0), Open)) : Up(CS::CreateHelper(CuckooParams(), *MakeCuckoo(0), Open));
  });
}
Server& Leader(int kind) {
  return Object<Server>(F("leader-%d", kind), [kind] {
    auto send = [kind](const dp::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
      if (in_send) in_send();
      w();
      return Helper(kind).HandleRequest(r);
    };
    return kind == 0 ? Up(DS::CreateLeader(DenseConfig(), *MakeDense(0), send)) : kind == 1 ? Up(SS::CreateLeader(SimpleParams(), *MakeSimple(0), send)) : Up(CS::CreateLeader(CuckooParams(), *MakeCuckoo(0), send));
  });
}
dp::DenseDpfPirClient& DenseClient(int rows = kRows, const char* place = "dense") {
  return Object<dp::DenseDpfPirClient>(F("%s-client-%d", place, rows), [rows] { return dp::DenseDpfPirClient::Create(DenseConfig(rows), Seal); });
}
dp::SimpleHashingSparseDpfPirClient& SimpleClient() {
  return Object<dp::SimpleHashingSparseDpfPirClient>("client", [] { return dp::SimpleHashingSparseDpfPirClient::Create(Published(true), Seal); });
}
dp::CuckooHashingSparseDpfPirClient& CuckooClient() {
  return Object<dp::CuckooHashingSparseDpfPirClient>("client", [] { return dp::CuckooHashingSparseDpfPirClient::Create(Published(false), Seal); });
}

// ---------------------------------------------------------------- inputs
template <typename T>
T Must(absl::StatusOr<T> x) {
  if (!x.ok()) { fprintf(stderr, "input: %s\n", x.status().ToString().c_str()); abort(); }
  return std::move(*x);
}
void PutKeys(Inputs& m, const std::string& n, const std::pair<DpfKey, DpfKey>& k) {
  m[n + "p0"] = k.first.SerializeAsString();
  m[n + "p1"] = k.second.SerializeAsString();
  // Keys that differ from the first in one part only.
  DpfKey t = k.first;
  t.set_party(1);
  m[n + "party"] = t.SerializeAsString();
  t = k.first;
  t.mutable_seed()->set_low(t.seed().low() ^ 4);
  m[n + "seed"] = t.SerializeAsString();
  t = k.first;
  *t.mutable_last_level_value_correction() = k.second.last_level_value_correction();
  t.mutable_last_level_value_correction(0)->mutable_integer()->set_value_uint64(99);
  m[n + "value"] = t.SerializeAsString();
  t = k.first;
  if (t.correction_words_size()) {
    t.mutable_correction_words(t.correction_words_size() - 1)->mutable_seed()->set_high(12345);
    m[n + "word"] = t.SerializeAsString();
    t = k.first;
    for (auto& w : *t.mutable_correction_words())
      if (w.value_correction_size()) w.mutable_value_correction(0)->mutable_integer()->set_value_uint64(77);
    m[n + "inner"] = t.SerializeAsString();
    t = k.first;
    t.mutable_correction_words(0)->set_control_left(!t.correction_words(0).control_left());
    m[n + "bit"] = t.SerializeAsString();
  }
  t = k.first;
  t.clear_last_level_value_correction();
  m[n + "broken"] = t.SerializeAsString();
}
Inputs MakeInputs() {
  Inputs m;
  R().Reset(4711);
  PutKeys(m, "A", Must(Plain().GenerateKeys(300, uint64_t(1) << 40)));
  PutKeys(m, "B", Must(Plain().GenerateKeys(17, uint64_t(3))));
  PutKeys(m, "T", Must(Tree().GenerateKeysIncremental(u128{300}, uint16_t(9), uint32_t(10), Pair(11, 12))));
  PutKeys(m, "U", Must(Tree().GenerateKeysIncremental(u128{49}, uint16_t(1), uint32_t(2), Pair(3, 4))));
  PutKeys(m, "E", Must(Even().GenerateKeysIncremental(u128{1300}, uint64_t(1), uint64_t(2), uint64_t(3))));
  PutKeys(m, "G", Must(Even().GenerateKeysIncremental(u128{5}, uint64_t(7), uint64_t(8), uint64_t(9))));
  PutKeys(m, "M", Must(Modular().GenerateKeys(33, Mods(Mod(7), Mod(4294967290u)))));
  PutKeys(m, "N10", Must(InSlot<uint64_t>(10).GenerateKeys(600, uint64_t(1))));
  PutKeys(m, "N32", Must(InSlot<uint32_t>(9).GenerateKeys(400, uint32_t(1))));
  PutKeys(m, "N128", Must(InSlot<u128>(9).GenerateKeys(400, u128(1))));
  auto dcf = [&](const std::string& n, std::pair<dp::DcfKey, dp::DcfKey> k) {
    Inputs one;
    PutKeys(one, n, {k.first.key(), k.second.key()});
    for (auto& [name, b] : one) {
      dp::DcfKey d;
      d.mutable_key()->ParseFromString(b);
      m[name] = d.SerializeAsString();
    }
  };
  dcf("C", Must(Compare<uint64_t>(8).GenerateKeys(100, uint64_t(1) << 33)));
  dcf("D", Must(Compare<uint64_t>(8).GenerateKeys(200, uint64_t(5))));
  dcf("C32", Must(Compare<uint32_t>(8).GenerateKeys(100, uint32_t(5))));
  dcf("C9", Must(Compare<uint64_t>(9, "slot").GenerateKeys(100, uint64_t(5))));
  dcf("CX", Must(Compare<Block>(8, "slot").GenerateKeys(100, Block(5))));
  auto gate = [&](const std::string& n, std::pair<fg::MicKey, fg::MicKey> k) {
    m[n + "p0"] = k.first.SerializeAsString();
    m[n + "p1"] = k.second.SerializeAsString();
    auto t = k.first;
    t.mutable_output_mask_share(1)->mutable_value_uint128()->set_low(9);
    m[n + "mask"] = t.SerializeAsString();
    t = k.first;
    t.mutable_output_mask_share()->RemoveLast();
    m[n + "broken"] = t.SerializeAsString();
  };
  gate("X", Must(GateA().Gen(13, {3, 60})));
  gate("Y", Must(GateA().Gen(50, {0, 1})));
  gate("Z", Must(GateB().Gen(13, {3, 60})));
  auto request = [&](const std::string& n, auto& client, auto q, int kind) {
    auto p = Must(client.CreatePlainRequests(q));
    auto f = Must(client.CreateRequest(q));
    dp::PirRequest r;
    *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(p);
    m[n + "plain0"] = r.SerializeAsString();
    *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<1>(p).plain_request();
    m[n + "plain1"] = r.SerializeAsString();
    r.mutable_dpf_pir_request()->mutable_plain_request()->mutable_dpf_key(0)->clear_seed();
    m[n + "broken"] = r.SerializeAsString();
    *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(p);
    auto* v = r.mutable_dpf_pir_request()->mutable_plain_request()->mutable_dpf_key(0)->mutable_last_level_value_correction(0)->mutable_xor_wrapper()->mutable_value_uint128();
    v->set_low(v->low() ^ 0xff);
    m[n + "value"] = r.SerializeAsString();
    m[n + "leader"] = f.first.SerializeAsString();
    m[n + "state"] = f.second.SerializeAsString();
    *r.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = f.first.dpf_pir_request().leader_request().encrypted_helper_request();
    m[n + "helper"] = r.SerializeAsString();
    auto* s = r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->mutable_encrypted_request();
    s->resize(s->size() / 2);
    m[n + "halfhelper"] = r.SerializeAsString();
    auto resp = Must(Leader(kind).HandleRequest(f.first));
    m[n + "response"] = resp.SerializeAsString();
    resp.mutable_dpf_pir_response()->add_masked_response("x");
    m[n + "longresponse"] = resp.SerializeAsString();
  };
  for (int i = 0; i < 2; ++i) {
    request(F("dense%d", i), DenseClient(), i ? std::vector<int>{130, 5} : std::vector<int>{64}, 0);
    std::vector<std::string> q = i ? std::vector<std::string>{KeyOf(2), "absent"} : std::vector<std::string>{KeyOf(1)};
    request(F("simple%d", i), SimpleClient(), q, 1);
    request(F("cuckoo%d", i), CuckooClient(), q, 2);
  }
  return m;
}

// ---------------------------------------------------------------- calls
using Ops = std::vector<Op>;
const std::vector<u128> kAt = {300, 0, 511, 17, 300}, kAt2 = {299, 301};
Ops DpfOps() {
  Ops v;
  for (auto k : {"Ap0", "Ap1", "Bp0", "Aparty", "Aseed", "Avalue", "Aword", "Abit", "Abroken"})
    v.push_back({F("at %s", k), [k](Out& o) {
                   Held<DpfKey> key(k);
                   o(Plain().EvaluateAt<uint64_t>(*key, 0, kAt));
                   key.Check(o);
                 }});
  v.push_back({"at Ap0 elsewhere", [](Out& o) { Held<DpfKey> key("Ap0"); o(Plain().EvaluateAt<uint64_t>(*key, 0, kAt2)); }});
  v.push_back({"at Ap0 outside", [](Out& o) { Held<DpfKey> key("Ap0"); o(Plain().EvaluateAt<uint64_t>(*key, 0, {3, 512})); }});
  v.push_back({"at Ap0 nowhere", [](Out& o) { Held<DpfKey> key("Ap0"); o(Plain().EvaluateAt<uint64_t>(*key, 0, {})); }});
  v.push_back({"at Ap0 wrong type", [](Out& o) { Held<DpfKey> key("Ap0"); o(Plain().EvaluateAt<uint32_t>(*key, 0, kAt)); }});
  for (auto k : {"Ap0", "Bp1", "Avalue"})
    v.push_back({F("all %s", k), [k](Out& o) {
                   Held<DpfKey> key(k);
                   auto c = Plain().CreateEvaluationContext(*key);
                   key.Check(o);
                   if (!c.ok()) { o(c.status()); return; }
                   o(Plain().EvaluateNext<uint64_t>({}, *c));
                   o(*c);
                 }});
  for (auto k : {"Tp0", "Tp1", "Up0", "Tinner", "Tseed"}) {
    v.push_back({F("inner %s", k), [k](Out& o) { Held<DpfKey> key(k); o(Tree().EvaluateAt<uint32_t>(*key, 1, {18, 0, 31})); }});
    v.push_back({F("until %s", k), [k](Out& o) {
                   Held<DpfKey> key(k);
                   auto c = Tree().CreateEvaluationContext(*key);
                   if (!c.ok()) { o(c.status()); return; }
                   o(Tree().EvaluateUntil<uint16_t>(0, {}, *c));
                   o(Tree().EvaluateUntil<uint32_t>(1, {0, 2}, *c));
                   o(Tree().EvaluateNext<Pair>({18, 3, 19}, *c));
                 }});
  }
  v.push_back({"until Tp0 other prefixes", [](Out& o) {
                 Held<DpfKey> key("Tp0");
                 auto c = Tree().CreateEvaluationContext(*key);
                 if (!c.ok()) { o(c.status()); return; }
                 o(Tree().EvaluateUntil<uint16_t>(0, {}, *c));
                 o(Tree().EvaluateUntil<uint32_t>(1, {1}, *c));
                 o(Tree().EvaluateUntil<Pair>(2, {18}, *c));  // not among the prefixes
                 o(Tree().EvaluateUntil<Pair>(2, {9}, *c));
               }});
  v.push_back({"jump Tp0", [](Out& o) {
                 Held<DpfKey> key("Tp0");
                 auto c = Tree().CreateEvaluationContext(*key);
                 if (!c.ok()) { o(c.status()); return; }
                 o(Tree().EvaluateAt<uint16_t>(0, {1, 2}, *c));
                 o(Tree().EvaluateAt<Pair>(2, {300, 1}, *c));
               }});
  auto apply = [&v](const char* name, std::vector<std::string> ks, std::vector<u128> x, int stop, int shift) {
    v.push_back({name, [ks, x, stop, shift](Out& o) {
                   std::vector<std::unique_ptr<Held<DpfKey>>> h;
                   std::vector<const DpfKey*> p;
                   for (size_t i = 0; i < ks.size(); ++i) h.push_back(std::make_unique<Held<DpfKey>>(ks[i], i)), p.push_back(&**h[i]);
                   int left = stop;
                   o(Even().EvaluateAndApply<uint64_t>(p, x, [&](absl::Span<const uint64_t> s) {
                     o(std::vector<uint64_t>(s.begin(), s.end()));
                     return --left != 0;
                   }, shift));
                   for (auto& k : h) k->Check(o);
                 }});
  };
  apply("apply E G", {"Ep0", "Gp0"}, {1300, 5}, 9, 0);
  apply("apply G E E", {"Gp0", "Ep1", "Ep0"}, {5, 1300, 17}, 9, 0);
  apply("apply E stop", {"Ep0"}, {1300}, 1, 0);
  apply("apply E shift", {"Ep0", "Evalue"}, {1300 * 4, 1300 * 4 + 1}, 2, 2);
  apply("apply E mismatch", {"Ep0", "Ep1"}, {1300}, 9, 0);
  apply("apply broken", {"Ep0", "Ebroken"}, {1300, 5}, 9, 0);
  v.push_back({"gen 300", [](Out& o) { o(Plain().GenerateKeys(300, uint64_t(5))); }});
  v.push_back({"gen 301", [](Out& o) { o(Plain().GenerateKeys(301, uint64_t(6))); }});
  v.push_back({"gen outside", [](Out& o) { o(Plain().GenerateKeys(512, uint64_t(6))); }});
  v.push_back({"gen other object", [](Out& o) { o(Plain("other").GenerateKeys(300, uint64_t(5))); }});
  v.push_back({"gen tree", [](Out& o) { o(Tree().GenerateKeysIncremental(u128{3}, uint16_t(9), uint32_t(1), Pair(1, 2))); }});
  v.push_back({"gen tree mismatch", [](Out& o) { o(Tree().GenerateKeysIncremental(u128{3}, uint16_t(9), uint32_t(1))); }});
  v.push_back({"gen pair", [](Out& o) { o(Couple<Pair>("pair").GenerateKeys(20, Pair(1, 2))); }});
  v.push_back({"gen riap", [](Out& o) { o(Couple<Riap>("riap").GenerateKeys(20, Riap(1, 2))); }});
  v.push_back({"place pair", [](Out& o) { o(Couple<Pair>("slot-couple-pair").GenerateKeys(20, Pair(1, 2))); }});
  v.push_back({"place riap", [](Out& o) { o(Couple<Riap>("slot-couple-riap").GenerateKeys(20, Riap(1, 2))); }});
  v.push_back({"gen mods", [](Out& o) { o(Modular().GenerateKeys(33, Mods(Mod(1), Mod(2)))); }});
  v.push_back({"at M", [](Out& o) { Held<DpfKey> key("Mp0"); o(Modular().EvaluateAt<Mods>(*key, 0, {33, 0})); }});
  // Objects with other parameters where another one lived.
  v.push_back({"place 9 u32", [](Out& o) { Held<DpfKey> key("N32p0"); o(InSlot<uint32_t>(9).EvaluateAt<uint32_t>(*key, 0, kAt)); }});
  v.push_back({"place 9 u64", [](Out& o) { Held<DpfKey> key("Ap0"); o(InSlot<uint64_t>(9).EvaluateAt<uint64_t>(*key, 0, kAt)); }});
  v.push_back({"place 10 u64", [](Out& o) { Held<DpfKey> key("N10p0"); o(InSlot<uint64_t>(10).EvaluateAt<uint64_t>(*key, 0, kAt)); }});
  v.push_back({"place 9 u128", [](Out& o) { Held<DpfKey> key("N128p1"); o(InSlot<u128>(9).EvaluateAt<u128>(*key, 0, kAt)); }});
  v.push_back({"bad parameters", [](Out& o) { o(Dpf::Create(P<uint64_t>(129)).status()); }});
  return v;
}
Ops DcfOps() {
  Ops v;
  for (auto k : {"Cp0", "Cp1", "Dp0", "Cparty", "Cseed", "Cvalue", "Cinner", "Cword", "Cbroken"})
    v.push_back({F("compare %s", k), [k](Out& o) {
                   Held<dp::DcfKey> key(k);
                   o(Compare<uint64_t>(8).Evaluate<uint64_t>(*key, 99));
                   key.Check(o);
                 }});
  v.push_back({"compare Cp0 elsewhere", [](Out& o) { Held<dp::DcfKey> key("Cp0"); o(Compare<uint64_t>(8).Evaluate<uint64_t>(*key, 100)); }});
  v.push_back({"compare Cp0 outside", [](Out& o) { Held<dp::DcfKey> key("Cp0"); o(Compare<uint64_t>(8).Evaluate<uint64_t>(*key, 256)); }});
  v.push_back({"compare 32", [](Out& o) { Held<dp::DcfKey> key("C32p0"); o(Compare<uint32_t>(8).Evaluate<uint32_t>(*key, 99)); }});
  auto batch = [&v](const char* name, std::vector<std::string> ks, std::vector<u128> x) {
    v.push_back({name, [ks, x](Out& o) {
                   std::vector<std::unique_ptr<Held<dp::DcfKey>>> h;
                   std::vector<const dp::DcfKey*> p;
                   for (size_t i = 0; i < ks.size(); ++i) h.push_back(std::make_unique<Held<dp::DcfKey>>(ks[i], i)), p.push_back(&**h[i]);
                   o(Compare<uint64_t>(8).BatchEvaluate<uint64_t>(p, x));
                   for (auto& k : h) k->Check(o);
                 }});
  };
  batch("compare C D", {"Cp0", "Dp1"}, {99, 99});
  batch("compare D C C", {"Dp1", "Cp0", "Cp1"}, {99, 99, 255});
  batch("compare none", {}, {});
  batch("compare mismatch", {"Cp0"}, {1, 2});
  v.push_back({"compare gen 100", [](Out& o) { o(Compare<uint64_t>(8).GenerateKeys(100, uint64_t(5))); }});
  v.push_back({"compare gen 101", [](Out& o) { o(Compare<uint64_t>(8).GenerateKeys(101, uint64_t(5))); }});
  v.push_back({"compare gen outside", [](Out& o) { o(Compare<uint64_t>(8).GenerateKeys(256, uint64_t(5))); }});
  v.push_back({"compare place 9", [](Out& o) { Held<dp::DcfKey> key("C9p0"); o(Compare<uint64_t>(9, "slot").Evaluate<uint64_t>(*key, 99)); }});
  v.push_back({"compare place xor", [](Out& o) { Held<dp::DcfKey> key("CXp0"); o(Compare<Block>(8, "slot").Evaluate<Block>(*key, 99)); }});
  v.push_back({"compare place 8", [](Out& o) { Held<dp::DcfKey> key("Cp0"); o(Compare<uint64_t>(8, "slot").Evaluate<uint64_t>(*key, 99)); }});
  for (auto k : {"Xp0", "Xp1", "Yp0", "Xmask", "Xbroken"})
    v.push_back({F("gate %s", k), [k](Out& o) {
                   Held<fg::MicKey> key(k);
                   o(GateA().Eval(*key, 30));
                   key.Check(o);
                 }});
  v.push_back({"gate Xp0 elsewhere", [](Out& o) { Held<fg::MicKey> key("Xp0"); o(GateA().Eval(*key, 1)); }});
  v.push_back({"gate Xp0 outside", [](Out& o) { Held<fg::MicKey> key("Xp0"); o(GateA().Eval(*key, 64)); }});
  v.push_back({"gate Z", [](Out& o) { Held<fg::MicKey> key("Zp0"); o(GateB().Eval(*key, 30)); }});
  v.push_back({"gate batch", [](Out& o) {
                 Held<fg::MicKey> a("Xp1", 0), b("Yp1", 1), c("Xp1", 2);
                 std::vector<const fg::MicKey*> p = {&*a, &*b, &*c};
                 o(GateA().BatchEval(p, {30, 31, 32}));
               }});
  v.push_back({"gate gen", [](Out& o) { o(GateA().Gen(13, {3, 60})); }});
  v.push_back({"gate gen 14", [](Out& o) { o(GateA().Gen(14, {3, 60})); }});
  v.push_back({"gate gen Z", [](Out& o) { o(GateB().Gen(13, {3, 60})); }});
  v.push_back({"gate gen mismatch", [](Out& o) { o(GateA().Gen(13, {3})); }});
  v.push_back({"gate place B", [](Out& o) { Held<fg::MicKey> key("Zp1"); o(GateB("slot-gate-b").Eval(*key, 30)); }});
  v.push_back({"gate place C", [](Out& o) { Held<fg::MicKey> key("Xp0"); o(GateC().Eval(*key, 30)); }});
  return v;
}
Ops HashOps() {
  Ops v;
  for (int key : {1, 2})
    for (int n : {0, 1, 3, 64, 70})
      v.push_back({F("block hash %d of %d", key, n), [key, n](Out& o) {
                     using H = dp::Aes128FixedKeyHash;
                     H& h = Object<H>(F("%skey-%d", n == 3 ? "slot" : "", key), [key]() -> absl::StatusOr<std::unique_ptr<H>> {
                       auto h = H::Create(absl::MakeUint128(key * 77, key));
                       if (!h.ok()) return h.status();
                       return std::make_unique<H>(std::move(*h));
                     });
                     std::vector<u128> a(n), b(n, 99);
                     for (int i = 0; i < n; ++i) a[i] = absl::MakeUint128(i * 77 + n, n);
                     auto c = a;
                     o(h.Evaluate(a, absl::MakeSpan(b)));
                     o(b);
                     if (a != c) o.s += "ARGUMENT CHANGED ";
                   }});
  v.push_back({"block hash mismatch", [](Out& o) {
                 using H = dp::Aes128FixedKeyHash;
                 auto h = H::Create(5);
                 std::vector<u128> a(3), b(2, 99);
                 o(h->Evaluate(a, absl::MakeSpan(b)));
                 o(b);
               }});
  for (const char* seed : {"one", "two", ""})
    for (const char* x : {"a", "b"}) {
      v.push_back({F("sha %s(%s)", seed, x), [seed, x](Out& o) {
                     auto& f = Object<dp::SHA256HashFunction>(std::string("slot") + seed, [seed]() -> absl::StatusOr<std::unique_ptr<dp::SHA256HashFunction>> { return std::make_unique<dp::SHA256HashFunction>(seed); });
                     o(f(x, 1000003)), o(f(x, 7));
                   }});
      v.push_back({F("farm %s(%s)", seed, x), [seed, x](Out& o) {
                     auto& f = Object<dp::FarmHashFunction>(std::string("farm") + seed, [seed]() -> absl::StatusOr<std::unique_ptr<dp::FarmHashFunction>> { return std::make_unique<dp::FarmHashFunction>(seed); });
                     o(f(x, 1000003));
                   }});
    }
  for (int salt : {0, 1})
    v.push_back({F("family %d", salt), [salt](Out& o) {
                   dp::HashFamilyConfig c;
                   c.set_hash_family(salt ? dp::HashFamilyConfig::HASH_FAMILY_SHA256 : dp::HashFamilyConfig::HASH_FAMILY_SHA256);
                   c.set_seed(F("seed %d", salt));
                   auto f = dp::CreateHashFamilyFromConfig(c);
                   if (!f.ok()) { o(f.status()); return; }
                   auto h = dp::CreateHashFunctions(std::move(*f), 3);
                   if (!h.ok()) { o(h.status()); return; }
                   for (auto& x : *h) o(x("some key", 100003));
                 }});
  v.push_back({"family unset", [](Out& o) { o(dp::CreateHashFamilyFromConfig(dp::HashFamilyConfig()).status()); }});
  for (const char* seed : {"0123456789abcdef", "another seed ..."})
    for (int n : {40, 16}) {
      v.push_back({F("pad %.3s %d", seed, n), [seed, n](Out& o) {
                     auto p = dp::Aes128CtrSeededPrng::Create(seed);
                     if (!p.ok()) { o(p.status()); return; }
                     o((*p)->GetRandomBytes(n)), o((*p)->GetRandomBytes(3));
                   }});
    }
  v.push_back({"pad nonce", [](Out& o) {
                 auto p = dp::Aes128CtrSeededPrng::CreateWithNonce("0123456789abcdef", "nonce of 16 byte");
                 if (!p.ok()) { o(p.status()); return; }
                 o((*p)->GetRandomBytes(40));
               }});
  v.push_back({"pad short seed", [](Out& o) { o(dp::Aes128CtrSeededPrng::Create("short").status()); }});
  v.push_back({"pad seed", [](Out& o) { o(dp::Aes128CtrSeededPrng::GenerateSeed()); }});
  v.push_back({"rng", [](Out& o) {
                 auto r = dp::BasicRng::Create("");
                 if (!r.ok()) { o(r.status()); return; }
                 o(uint64_t(*(*r)->Rand8())), o(*(*r)->Rand64()), o(*(*r)->Rand128());
               }});
  v.push_back({"rng wide", [](Out& o) {
                 auto r = dp::BasicRng::Create("");
                 if (!r.ok()) { o(r.status()); return; }
                 o(*(*r)->Rand128()), o(*(*r)->Rand64());
               }});
  for (int salt : {0, 2}) {
    v.push_back({F("simple table %d", salt), [salt](Out& o) {
                   auto t = dp::SimpleHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 4, 2, 3);
                   if (!t.ok()) { o(t.status()); return; }
                   for (int i = 0; i < 5; ++i) o((*t)->Insert(KeyOf(i + salt)));
                   for (auto& b : (*t)->GetTable()) o(b);
                 }});
    v.push_back({F("choice table %d", salt), [salt](Out& o) {
                   auto t = dp::MultipleChoiceHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 4, 2, 2);
                   if (!t.ok()) { o(t.status()); return; }
                   for (int i = 0; i < 5; ++i) o((*t)->Insert(KeyOf(i + salt)));
                   for (auto& b : (*t)->GetTable()) o(b);
                 }});
  }
  return v;
}
std::vector<std::vector<Block>> Selections(int n, int salt, int blocks = 2) {
  std::vector<std::vector<Block>> sel(n);
  for (int i = 0; i < n; ++i)
    for (int b = 0; b < blocks; ++b) sel[i].push_back(Block(absl::MakeUint128(Mix(i + salt * 10 + b), Mix(i + n + salt))));
  return sel;
}
Ops PirOps() {
  Ops v;
  auto product = [&v](const char* name, int salt, int rows, int n, int sel, int blocks) {
    v.push_back({name, [=](Out& o) {
                   auto& db = Object<DenseDb>(F("slot-db-%d-%d", salt, rows), [=] { return MakeDense(salt, rows); });
                   o(db.InnerProductWith(Selections(n, sel, blocks)));
                 }});
  };
  product("rows", 0, kRows, 1, 0, 2);
  product("rows other selection", 0, kRows, 1, 1, 2);
  product("rows three", 0, kRows, 3, 0, 2);
  product("rows other database", 1, kRows, 1, 0, 2);
  product("rows larger database", 0, kRows + 60, 1, 0, 2);
  product("rows too few bits", 0, kRows, 1, 0, 1);
  auto serve = [&v](const std::string& name, std::function<Server&()> s, const std::string& r) {
    v.push_back({name + " " + r, [s, r](Out& o) {
                   Held<dp::PirRequest> q(r);
                   o(s().HandleRequest(*q));
                   q.Check(o);
                 }});
  };
  for (auto r : {"plain0", "plain1", "broken", "value"}) serve("dense", [] { return std::ref(DenseServer(0)); }, std::string("dense0") + r);
  serve("dense", [] { return std::ref(DenseServer(0)); }, "dense1plain0");
  serve("place 0", [] { return std::ref(DenseServer(0, "slot")); }, "dense0plain0");
  serve("place 1", [] { return std::ref(DenseServer(1, "slot")); }, "dense0plain0");
  for (auto r : {"simple0plain0", "simple1plain1", "simple0value"}) serve("simple", [] { return std::ref(SimpleServer(0)); }, r);
  serve("simple other", [] { return std::ref(SimpleServer(1)); }, "simple0plain0");
  for (auto r : {"cuckoo0plain0", "cuckoo1plain1", "cuckoo0value"}) serve("cuckoo", [] { return std::ref(CuckooServer(0)); }, r);
  serve("cuckoo other", [] { return std::ref(CuckooServer(1)); }, "cuckoo0plain0");
  const char* kinds[] = {"dense", "simple", "cuckoo"};
  for (int k = 0; k < 3; ++k) {
    serve("helper", [k] { return std::ref(Helper(k)); }, F("%s0helper", kinds[k]));
    serve("leader", [k] { return std::ref(Leader(k)); }, F("%s1leader", kinds[k]));
  }
  serve("helper", [] { return std::ref(Helper(0)); }, "dense1helper");
  serve("helper", [] { return std::ref(Helper(0)); }, "dense0halfhelper");
  serve("leader", [] { return std::ref(Leader(0)); }, "dense0leader");
  serve("leader", [] { return std::ref(Leader(0)); }, "dense0halfhelper");
  auto handle = [&v](const std::string& name, auto client, const std::string& resp, const std::string& state) {
    v.push_back({name, [=](Out& o) {
                   Held<dp::PirResponse> r(resp);
                   Held<dp::PirRequestClientState> s(state);
                   o(client().HandleResponse(*r, *s));
                   r.Check(o), s.Check(o);
                 }});
  };
  auto ask = [&v](const std::string& name, auto client, auto q) {
    v.push_back({name, [=](Out& o) { auto query = q; o(client().CreateRequest(query)); }});
  };
  auto dc = []() -> auto& { return DenseClient(); };
  auto sc = []() -> auto& { return SimpleClient(); };
  auto cc = []() -> auto& { return CuckooClient(); };
  handle("got dense 0", dc, "dense0response", "dense0state");
  handle("got dense 1", dc, "dense1response", "dense1state");
  handle("got dense mixed up", dc, "dense1response", "dense0state");
  handle("got simple 0", sc, "simple0response", "simple0state");
  handle("got simple 1", sc, "simple1response", "simple1state");
  handle("got simple long", sc, "simple1longresponse", "simple1state");
  handle("got cuckoo 0", cc, "cuckoo0response", "cuckoo0state");
  handle("got cuckoo 1", cc, "cuckoo1response", "cuckoo1state");
  handle("got cuckoo long", cc, "cuckoo1longresponse", "cuckoo1state");
  ask("ask dense 3", dc, std::vector<int>{3});
  ask("ask dense 4 3", dc, std::vector<int>{4, 3});
  ask("ask dense outside", dc, std::vector<int>{3, kRows});
  ask("ask place 50", []() -> auto& { return DenseClient(50, "slot"); }, std::vector<int>{3});
  ask("ask place 5000", []() -> auto& { return DenseClient(5000, "slot"); }, std::vector<int>{3});
  ask("ask simple", sc, std::vector<std::string>{"abc"});
  ask("ask simple two", sc, std::vector<std::string>{"abd", "abc"});
  ask("ask cuckoo", cc, std::vector<std::string>{"abc"});
  ask("ask cuckoo two", cc, std::vector<std::string>{"abd", "abc"});
  return v;
}

// ---------------------------------------------------------------- processes
int* progress;  // shared with child processes
// Runs `fn` in a new process that has used nothing of the library before.
// Returns what it wrote; false if it crashed.
bool InChild(const std::function<std::string()>& fn, std::string* out) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    alarm(W().case_timeout);
    std::string s = fn();
    for (size_t i = 0; i < s.size();) {
      ssize_t n = write(fd[1], s.data() + i, s.size() - i);
      if (n <= 0) _exit(9);
      i += n;
    }
    _exit(0);
  }
  close(fd[1]);
  out->clear();
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) out->append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
std::string Pack(const Inputs& m) {
  std::string s;
  for (auto& [k, v] : m) s += F("%zu %zu ", k.size(), v.size()) + k + v;
  return s;
}
Inputs Unpack(const std::string& s) {
  Inputs m;
  for (size_t i = 0; i < s.size();) {
    size_t a, b;
    int n = 0;
    if (sscanf(s.c_str() + i, "%zu %zu %n", &a, &b, &n) != 2) abort();
    i += n;
    m[s.substr(i, a)] = s.substr(i + a, b);
    i += a + b;
  }
  return m;
}
// What each call gives alone.
std::map<std::string, std::string> alone;
const std::string& Alone(const Op& op) {
  auto it = alone.find(op.name);
  if (it != alone.end()) return it->second;
  std::string s;
  if (!InChild([&] { return Run(op); }, &s)) s = "CRASH";
  return alone[op.name] = s;
}
void Bad(const char* sig, const std::string& what, const std::string& got, const std::string& want) {
  Fail(sig, "%s: %.400s; alone in a new process: %.400s", what.c_str(), got.c_str(), want.c_str());
}

// A sequence in which every window of `len` calls occurs.
std::vector<int> DeBruijn(int n, int len) {
  std::vector<int> a(n * len + 1, 0), seq;
  std::function<void(int, int)> db = [&](int t, int p) {
    if (t > len) {
      if (len % p == 0) seq.insert(seq.end(), a.begin() + 1, a.begin() + p + 1);
      return;
    }
    a[t] = a[t - p];
    db(t + 1, p);
    for (int j = a[t - p] + 1; j < n; ++j) {
      a[t] = j;
      db(t + 1, t);
    }
  };
  db(1, 1);
  for (int i = 0; i + 1 < len; ++i) seq.push_back(seq[i]);
  return seq;
}
// Runs calls one after the other; returns a description of the first that
// gives something else than alone, or nothing.
std::string Walk(const Ops& ops, const std::vector<int>& seq, size_t from, size_t to, int len) {
  for (size_t i = from; i < to; ++i) {
    *progress = i;
    std::string got = Run(ops[seq[i]]);
    if (got != alone[ops[seq[i]].name]) {
      std::string w;
      for (size_t j = i >= from + len - 1 ? i - len + 1 : from; j <= i; ++j) w += (w.empty() ? "" : ", then ") + ops[seq[j]].name;
      return w + "\n" + got + "\n" + alone[ops[seq[i]].name];
    }
  }
  return "";
}
void Report(const char* sig, const Ops& ops, const std::vector<int>& seq, bool ok, const std::string& s) {
  if (!ok) Fail("crash", "in %s", ops[seq[*progress]].name.c_str());
  else if (!s.empty()) {
    size_t a = s.find('\n'), b = s.find('\n', a + 1);
    Bad(sig, s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1));
  }
}
const char* kHolds[] = {"overwritten", "new", "kept"};
void RunScene(const std::string& scene, const Ops& ops, int len, int chunks) {
  auto prepare = [&] {
    for (auto& op : ops)
      if (Alone(op) == "CRASH") Fail("crash", "%s alone", op.name.c_str());
  };
  // Every pair of calls as the first two of a process.
  for (int h = 0; h < 3; ++h)
    for (size_t i = 0; i < ops.size(); ++i) {
      if (!Case(F("first/%s/%s/%s", scene.c_str(), kHolds[h], ops[i].name.c_str()))) continue;
      prepare();
      hold = h;
      for (size_t j = 0; j < ops.size(); ++j) {
        std::string s;
        std::vector<int> seq = {int(i), int(j)};
        bool ok = InChild([&] { return Walk(ops, seq, 0, 2, 2); }, &s);
        Report("second", ops, seq, ok, s);
        Trans(2), Trace();
        State(Hash(F("%zu %zu", i, j)) + h);
      }
    }
  // Every window of calls, one process per chunk.
  std::vector<int> seq;
  for (int h = 0; h < 3; ++h)
    for (int c = 0; c < chunks; ++c) {
      if (!Case(F("walk/%s/%s/%d", scene.c_str(), kHolds[h], c))) continue;
      prepare();
      hold = h;
      if (seq.empty()) seq = DeBruijn(ops.size(), len);
      size_t from = seq.size() * c / chunks, to = std::min(seq.size(), seq.size() * (c + 1) / chunks + len);
      std::string s;
      bool ok = InChild([&] { return Walk(ops, seq, from, to, len); }, &s);
      Report("history", ops, seq, ok, s);
      Trans(to - from), Trace();
      for (size_t i = from; i + len <= to; ++i) State(Hash(&seq[i], len * sizeof(int), h));
    }
  Sample(F("%s: %zu calls, every window of %d, arguments overwritten/new/kept", scene.c_str(), ops.size(), len));
}

// ---------------------------------------------------------------- nesting
struct Host {
  std::string name;
  std::function<std::function<void()>&()> hook;
  std::function<void(Out&)> run;
};
void RunNested(const Ops& inner) {
  static std::function<void()> in_apply;
  std::vector<Host> hosts;
  hosts.push_back({"callback of a batch evaluation", [] { return std::ref(in_apply); }, [](Out& o) {
                     DpfKey a, b;
                     if (!a.ParseFromString(in["Ep0"]) || !b.ParseFromString(in["Gp1"])) abort();
                     std::vector<const DpfKey*> p = {&a, &b};
                     o(Even().EvaluateAndApply<uint64_t>(p, {1300, 7}, [&](absl::Span<const uint64_t> s) {
                       if (in_apply) in_apply();
                       o(std::vector<uint64_t>(s.begin(), s.end()));
                       return true;
                     }));
                   }});
  auto message = [](const std::string& n) {
    dp::PirRequest r;
    if (!r.ParseFromString(in[n])) abort();
    return r;
  };
  for (int k = 0; k < 3; ++k) {
    std::string n = F("%s0leader", k == 0 ? "dense" : k == 1 ? "simple" : "cuckoo");
    hosts.push_back({"sender of " + n, [] { return std::ref(in_send); }, [=](Out& o) { o(Leader(k).HandleRequest(message(n))); }});
    hosts.push_back({"decrypter behind " + n, [] { return std::ref(in_open); }, [=](Out& o) { o(Leader(k).HandleRequest(message(n))); }});
  }
  hosts.push_back({"encrypter of dense", [] { return std::ref(in_seal); }, [](Out& o) { R().Reset(1); o(DenseClient().CreateRequest(std::vector<int>{3, 4})); }});
  hosts.push_back({"encrypter of simple", [] { return std::ref(in_seal); }, [](Out& o) { R().Reset(1); o(SimpleClient().CreateRequest(std::vector<std::string>{"u", "v"})); }});
  hosts.push_back({"encrypter of cuckoo", [] { return std::ref(in_seal); }, [](Out& o) { R().Reset(1); o(CuckooClient().CreateRequest(std::vector<std::string>{"u", "v"})); }});
  for (auto& h : hosts)
    for (int from = 0; from < (int)inner.size(); from += 8) {
      if (!Case(F("nested/%s/%d", h.name.c_str(), from))) continue;
      hold = 0;
      auto outer = [&] {
        Out o;
        h.run(o);
        return o.s;
      };
      Op host{"host " + h.name, h.run};
      std::string want;
      if (!InChild(outer, &want)) { Fail("crash", "%s", h.name.c_str()); continue; }
      for (int j = from; j < std::min<int>(from + 8, inner.size()); ++j) {
        const Op& op = inner[j];
        const std::string want_in = Alone(op);
        std::string s;
        bool ok = InChild([&]() -> std::string {
          std::string bad;
          int times = 0;
          bool busy = false;
          auto& hook = h.hook();
          hook = [&] {
            if (busy) return;  // the inner call's own callbacks
            busy = true;
            ++times;
            auto keep = R();
            std::string got = Run(op);
            R() = keep;
            if (got != want_in && bad.empty()) bad = "inner\n" + got;
            busy = false;
          };
          std::string got = outer();
          hook = nullptr;
          if (bad.empty() && got != want) bad = "outer\n" + got;
          if (bad.empty() && times == 0) bad = "outer\nno callback";
          return bad;
        }, &s);
        Trans(2), Trace();
        State(Hash(h.name + op.name));
        if (!ok) Fail("crash", "%s in the %s", op.name.c_str(), h.name.c_str());
        else if (!s.empty()) {
          bool inner_bad = s[0] == 'i';
          Bad(inner_bad ? "nested-inner" : "nested-outer", op.name + " in the " + h.name, s.substr(6), inner_bad ? want_in : want);
        }
      }
    }
}

// ---------------------------------------------------------------- interleavings
// A use of the library in several steps on objects of its own.
struct Session {
  virtual ~Session() {}
  virtual std::string Step(int i) = 0;
};
struct Kind {
  std::string name;
  int steps;
  std::function<std::unique_ptr<Session>()> make;
};
struct Steps : Session {
  std::vector<std::function<void(Out&)>> s;
  std::string Step(int i) override {
    R().Reset(i * 31 + 5);
    Out o;
    s[i](o);
    return o.s;
  }
};
template <typename Fn>
Kind MakeKind(const std::string& name, Fn fill) {
  auto make = [fill]() -> std::unique_ptr<Session> {
    auto s = std::make_unique<Steps>();
    fill(*s);
    return s;
  };
  Steps probe;
  fill(probe);
  return {name, int(probe.s.size()), make};
}
struct TreeUse {
  DpfKey key;
  EvaluationContext ctx, copy;
};
std::vector<Kind> Sessions() {
  std::vector<Kind> v;
  auto tree = [](const char* name) {
    return [name](Steps& s) {
      auto u = std::make_shared<TreeUse>();
      s.s.push_back([u, name](Out& o) {
        u->key.ParseFromString(in[name]);
        auto c = Tree().CreateEvaluationContext(u->key);
        o(c.status());
        if (c.ok()) u->ctx = *c;
      });
      s.s.push_back([u](Out& o) { o(Tree().EvaluateUntil<uint16_t>(0, {}, u->ctx)); });
      s.s.push_back([u](Out& o) { o(Tree().EvaluateUntil<uint32_t>(1, {0, 2}, u->ctx)); });
      s.s.push_back([u](Out& o) { o(Tree().EvaluateNext<Pair>({18, 3}, u->ctx)), o(u->ctx); });
    };
  };
  v.push_back(MakeKind("tree T", tree("Tp0")));
  v.push_back(MakeKind("tree T again", tree("Tp0")));
  v.push_back(MakeKind("tree other party", tree("Tp1")));
  v.push_back(MakeKind("tree U", tree("Up0")));
  v.push_back(MakeKind("tree damaged", tree("Tinner")));
  v.push_back(MakeKind("tree points and failures", [](Steps& s) {
    auto u = std::make_shared<TreeUse>();
    s.s.push_back([u](Out& o) {
      u->key.ParseFromString(in["Tp0"]);
      auto c = Tree().CreateEvaluationContext(u->key);
      o(c.status());
      if (c.ok()) u->ctx = *c;
    });
    s.s.push_back([u](Out& o) { o(Tree().EvaluateUntil<uint32_t>(1, {}, u->ctx)), u->copy = u->ctx; });
    s.s.push_back([u](Out& o) { o(Tree().EvaluateUntil<Pair>(2, {77}, u->ctx)), o(Tree().EvaluateAt<Pair>(2, {300, 301}, u->ctx)); });
    s.s.push_back([u](Out& o) { o(Tree().EvaluateUntil<Pair>(2, {18}, u->copy)); });
  }));
  v.push_back(MakeKind("plain", [](Steps& s) {
    auto u = std::make_shared<TreeUse>();
    s.s.push_back([u](Out& o) {
      u->key.ParseFromString(in["Ap1"]);
      o(Plain().EvaluateAt<uint64_t>(u->key, 0, kAt));
    });
    s.s.push_back([u](Out& o) {
      auto c = Plain().CreateEvaluationContext(u->key);
      o(c.status());
      if (c.ok()) u->ctx = *c;
    });
    s.s.push_back([u](Out& o) { o(Plain().EvaluateNext<uint64_t>({}, u->ctx)); });
    s.s.push_back([u](Out& o) { o(Plain().EvaluateNext<uint64_t>({}, u->ctx)); });
  }));
  auto pad = [](const char* seed, const char* nonce, std::vector<int> draws) {
    return [=](Steps& s) {
      auto p = std::make_shared<std::unique_ptr<dp::Aes128CtrSeededPrng>>();
      for (size_t i = 0; i < draws.size(); ++i)
        s.s.push_back([=](Out& o) {
          if (!*p) *p = Must(dp::Aes128CtrSeededPrng::CreateWithNonce(seed, nonce));
          o((*p)->GetRandomBytes(draws[i]));
        });
    };
  };
  v.push_back(MakeKind("pad", pad("0123456789abcdef", "nonce of 16 byte", {5, 16, 40, 1})));
  v.push_back(MakeKind("pad same seed", pad("0123456789abcdef", "nonce of 16 byte", {16, 3, 3, 64})));
  v.push_back(MakeKind("pad other seed", pad("another seed ...", "nonce of 16 byte", {1, 1, 1, 30})));
  auto rows = [](int salt) {
    return [salt](Steps& s) {
      auto b = std::make_shared<dp::DenseDpfPirDatabase::Builder>();
      auto db = std::make_shared<std::unique_ptr<DenseDb>>();
      s.s.push_back([=](Out& o) { for (int i = 0; i < 3; ++i) b->Insert(RowOf(i, salt)); });
      s.s.push_back([=](Out& o) { for (int i = 3; i < 9; ++i) b->Insert(RowOf(i, salt)); });
      s.s.push_back([=](Out& o) {
        auto d = b->Build();
        o(d.status());
        if (d.ok()) *db = std::move(*d);
      });
      s.s.push_back([=](Out& o) { if (*db) o((*db)->InnerProductWith(Selections(2, salt, 1))), o((uint64_t)(*db)->size()); });
    };
  };
  v.push_back(MakeKind("rows 0", rows(0)));
  v.push_back(MakeKind("rows 1", rows(1)));
  v.push_back(MakeKind("buckets", [](Steps& s) {
    auto b = std::make_shared<dp::SimpleHashedDpfPirDatabase::Builder>();
    auto db = std::make_shared<std::unique_ptr<SimpleDb>>();
    s.s.push_back([=](Out& o) { b->SetParams(SimpleParams()), b->Insert({"a", "1"}); });
    s.s.push_back([=](Out& o) { b->Insert({"b", "2"}); });
    s.s.push_back([=](Out& o) {
      auto d = b->Build();
      o(d.status());
      if (d.ok()) *db = std::move(*d);
    });
    s.s.push_back([=](Out& o) { if (*db) o((*db)->InnerProductWith(Selections(2, 0, 2))); });
  }));
  v.push_back(MakeKind("cuckoo rows", [](Steps& s) {
    auto b = std::make_shared<dp::CuckooHashedDpfPirDatabase::Builder>();
    auto db = std::make_shared<std::unique_ptr<CuckooDb>>();
    s.s.push_back([=](Out& o) { b->SetParams(CuckooParams()), b->Insert({"a", "1"}); });
    s.s.push_back([=](Out& o) { b->Insert({"b", "22"}); });
    s.s.push_back([=](Out& o) {
      auto d = b->Build();
      o(d.status());
      if (d.ok()) *db = std::move(*d);
    });
    s.s.push_back([=](Out& o) { if (*db) o((*db)->InnerProductWith(Selections(2, 0, 2))); });
  }));
  auto table = [](auto create, int salt) {
    return [=](Steps& s) {
      using T = typename decltype(create())::value_type;
      auto t = std::make_shared<T>();
      for (int i = 0; i < 4; ++i)
        s.s.push_back([=](Out& o) {
          if (!*t) *t = Must(create());
          o((*t)->Insert(KeyOf(i + salt))), o((*t)->Insert(KeyOf(i * 2 + salt)));
          for (auto& b : (*t)->GetTable()) o(b);
        });
    };
  };
  auto st = [] { return dp::SimpleHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 4, 2, 3); };
  auto ct = [] { return dp::MultipleChoiceHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 3, 2, 2); };
  v.push_back(MakeKind("simple table", table(st, 0)));
  v.push_back(MakeKind("choice table", table(ct, 0)));
  v.push_back(MakeKind("choice table 1", table(ct, 1)));
  v.push_back(MakeKind("retrieval", [](Steps& s) {
    struct Use {
      dp::PirRequest request;
      dp::PirRequestClientState state;
      dp::PirResponse response;
    };
    auto u = std::make_shared<Use>();
    s.s.push_back([=](Out& o) {
      auto r = DenseClient().CreateRequest(std::vector<int>{7, 130});
      o(r.status());
      if (r.ok()) u->request = r->first, u->state = r->second;
    });
    s.s.push_back([=](Out& o) {
      auto r = Leader(0).HandleRequest(u->request);
      o(r.status());
      if (r.ok()) u->response = *r;
    });
    s.s.push_back([=](Out& o) { o(DenseClient().HandleResponse(u->response, u->state)); });
  }));
  v.push_back(MakeKind("keyword retrieval", [](Steps& s) {
    struct Use {
      dp::PirRequest request;
      dp::PirRequestClientState state;
      dp::PirResponse response;
    };
    auto u = std::make_shared<Use>();
    s.s.push_back([=](Out& o) {
      auto r = CuckooClient().CreateRequest(std::vector<std::string>{KeyOf(1), "absent"});
      o(r.status());
      if (r.ok()) u->request = r->first, u->state = r->second;
    });
    s.s.push_back([=](Out& o) {
      auto r = Leader(2).HandleRequest(u->request);
      o(r.status());
      if (r.ok()) u->response = *r;
    });
    s.s.push_back([=](Out& o) { o(CuckooClient().HandleResponse(u->response, u->state)); });
  }));
  return v;
}
void Interleave(const std::vector<const Kind*>& ks) {
  std::string name;
  for (auto* k : ks) name += (name.empty() ? "" : " + ") + k->name;
  if (!Case("together/" + name)) return;
  // Each alone.
  std::vector<std::vector<std::string>> want(ks.size());
  for (size_t i = 0; i < ks.size(); ++i) {
    std::string s;
    bool ok = InChild([&] {
      auto x = ks[i]->make();
      std::string all;
      for (int t = 0; t < ks[i]->steps; ++t) all += x->Step(t) + "\n";
      return all;
    }, &s);
    if (!ok) { Fail("crash", "%s alone", ks[i]->name.c_str()); return; }
    for (size_t a = 0, b; (b = s.find('\n', a)) != std::string::npos; a = b + 1) want[i].push_back(s.substr(a, b - a));
    if ((int)want[i].size() != ks[i]->steps) { Fail("alone", "%s", ks[i]->name.c_str()); return; }
  }
  int64_t count = 0;
  std::string s;
  bool ok = InChild([&]() -> std::string {
    std::string bad;
    std::vector<int> order;
    std::vector<int> left;
    for (auto* k : ks) left.push_back(k->steps);
    auto run = [&] {
      std::vector<std::unique_ptr<Session>> x;
      for (auto* k : ks) x.push_back(k->make());
      std::vector<int> at(ks.size(), 0);
      std::string so_far;
      for (int i : order) {
        so_far += F("%s step %d; ", ks[i]->name.c_str(), at[i] + 1);
        std::string got = x[i]->Step(at[i]);
        if (got != want[i][at[i]]) {
          bad = so_far + "\n" + got + "\n" + want[i][at[i]];
          return;
        }
        ++at[i];
      }
      ++count;
    };
    std::function<void()> rec = [&] {
      if (!bad.empty()) return;
      bool any = false;
      for (size_t i = 0; i < ks.size(); ++i)
        if (left[i]) {
          any = true;
          --left[i];
          order.push_back(i);
          rec();
          order.pop_back();
          ++left[i];
        }
      if (!any) run();
    };
    rec();
    return bad.empty() ? F("%lld", (long long)count) : bad;
  }, &s);
  if (!ok) { Fail("crash", "interleaved"); return; }
  if (size_t a = s.find('\n'); a != std::string::npos) {
    size_t b = s.find('\n', a + 1);
    Bad("interleaving", s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1));
    return;
  }
  int64_t n = atoll(s.c_str());
  int steps = 0;
  for (auto* k : ks) steps += k->steps;
  Trace(n), Trans(n * steps), State(n);
  Count("interleavings", n);
}
}  // namespace

void VpRun() {
  progress = static_cast<int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string s;
  if (!InChild([] { return Pack(MakeInputs()); }, &s)) {
    if (Case("inputs")) Fail("crash", "making the inputs");
    return;
  }
  in = Unpack(s);
  const bool san = Mode("pairs");
  Ops dpf = DpfOps(), dcf = DcfOps(), hash = HashOps(), pir = PirOps();
  const int len = (san ? 2 : 3) + Thorough(), chunks = (san ? 4 : 16) * (Thorough() ? 16 : 1);
  RunScene("dpf", dpf, len, chunks);
  RunScene("compare", dcf, len, chunks);
  RunScene("hash", hash, len, chunks);
  RunScene("retrieval", pir, len, chunks);
  // Calls of every part of the library.
  Ops mixed;
  auto some = [&mixed](const Ops& o, int step) { for (size_t i = 0; i < o.size(); i += step) mixed.push_back(o[i]); };
  some(dpf, 4), some(dcf, 4), some(hash, 4), some(pir, 4);
  RunScene("mixed", mixed, len, chunks);
  Ops all;
  for (auto* o : {&dpf, &dcf, &hash, &pir}) all.insert(all.end(), o->begin(), o->end());
  RunNested(all);
  auto kinds = Sessions();
  for (size_t i = 0; i < kinds.size(); ++i)
    for (size_t j = i; j < kinds.size(); ++j) Interleave({&kinds[i], &kinds[j]});
  // Three at once: all kinds in thorough, otherwise those that share most.
  std::vector<const Kind*> three;
  for (size_t i = 0; i < kinds.size(); ++i)
    if (Thorough() || i == 0 || i == 3 || i == 5 || i == 6 || kinds[i].name == "pad" || kinds[i].name == "rows 0" || kinds[i].name == "choice table" || kinds[i].name == "retrieval") three.push_back(&kinds[i]);
  if (!san || Thorough())
    for (size_t i = 0; i < three.size(); ++i)
      for (size_t j = i; j < three.size(); ++j)
        for (size_t k = j; k < three.size(); ++k) Interleave({three[i], three[j], three[k]});
}
