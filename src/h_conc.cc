// P28: concurrent calls, every schedule within the bound.
#include <sys/wait.h>

#include <array>
#include <memory>
#include <unordered_map>

#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "threads.h"
#include "vp.h"
using namespace vp;

namespace {
namespace dp = distributed_point_functions;
namespace fg = dp::fss_gates;
using u128 = absl::uint128;
using Block = dp::XorWrapper<u128>;
using Pair32 = dp::Tuple<uint32_t, uint64_t>;
using Mod = dp::IntModN<uint32_t, 4294967291u>;
using PlainRequest = dp::DpfPirRequest::PlainRequest;

// Digest of what a call returned.
struct Dg {
  uint64_t h = 1;
  void Raw(const void* p, size_t n) { h = Hash(p, n, h); }
  void operator()(const std::string& s) { Raw(s.data(), s.size()); }
  void operator()(uint64_t x) { h = Mix(h ^ Mix(x)); }
  void operator()(const absl::Status& s) { (*this)(s.ToString()); }
  void operator()(const google::protobuf::MessageLite& m) { (*this)(m.SerializeAsString()); }
  void Wide(u128 x) { (*this)(absl::Uint128Low64(x)), (*this)(absl::Uint128High64(x)); }
};
using Fn = std::function<uint64_t(void*)>;
struct Op {
  std::string name;
  Fn fn;
};
struct Kind {
  std::string name;
  std::function<std::shared_ptr<void>()> make;
  std::vector<Op> ops;
};
using Inputs = std::map<std::string, std::string>;

dp::DpfParameters Param(int log, int bits) {
  dp::DpfParameters p;
  p.set_log_domain_size(log);
  p.mutable_value_type()->mutable_integer()->set_bitsize(bits);
  return p;
}
template <typename T>
std::shared_ptr<void> Share(absl::StatusOr<std::unique_ptr<T>> x) {
  if (!x.ok()) { fprintf(stderr, "create: %s\n", x.status().ToString().c_str()); abort(); }
  return std::shared_ptr<void>(std::shared_ptr<T>(std::move(*x)));
}
// ---------------------------------------------------------------- shared objects
std::unique_ptr<dp::DistributedPointFunction> MakeTree() {
  std::vector<dp::DpfParameters> ps = {Param(2, 16), Param(5, 32), Param(9, 8)};
  auto* t = ps[2].mutable_value_type()->mutable_tuple();
  t->add_elements()->mutable_integer()->set_bitsize(32);
  t->add_elements()->mutable_integer()->set_bitsize(64);
  auto d = dp::DistributedPointFunction::CreateIncremental(ps);
  if (!d.ok() || !(*d)->RegisterValueType<Pair32>().ok()) abort();
  return std::move(*d);
}
std::unique_ptr<dp::DistributedPointFunction> MakeBlocks() {
  dp::DpfParameters p;
  p.set_log_domain_size(8);
  p.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  auto d = dp::DistributedPointFunction::Create(p);
  if (!d.ok() || !(*d)->RegisterValueType<Block>().ok()) abort();
  return std::move(*d);
}
std::unique_ptr<dp::DistributedPointFunction> MakeMod() {
  dp::DpfParameters p;
  p.set_log_domain_size(6);
  *p.mutable_value_type() = dp::ToValueType<dp::Tuple<Mod, Mod>>();
  auto d = dp::DistributedPointFunction::Create(p);
  if (!d.ok() || !(*d)->RegisterValueType<dp::Tuple<Mod, Mod>>().ok()) abort();
  return std::move(*d);
}
std::unique_ptr<dp::DistributedComparisonFunction> MakeDcf() {
  dp::DcfParameters p;
  *p.mutable_parameters() = Param(7, 64);
  auto d = dp::DistributedComparisonFunction::Create(p);
  if (!d.ok()) abort();
  return std::move(*d);
}
std::unique_ptr<fg::MultipleIntervalContainmentGate> MakeMic() {
  fg::MicParameters p;
  p.set_log_group_size(6);
  for (int i = 0; i < 2; ++i) {
    auto* x = p.add_intervals();
    x->mutable_lower_bound()->set_value_uint64(i * 5);
    x->mutable_upper_bound()->set_value_uint64(i + 20);
  }
  auto m = fg::MultipleIntervalContainmentGate::Create(p);
  if (!m.ok()) abort();
  return std::move(*m);
}
constexpr int kRows = 131;
std::string RowOf(int i) { return std::string(i % 5 * 7 + 1, char('a' + i % 23)) + char(i); }
std::string KeyOf(int i) { return F("key %d", i); }
template <typename P>
P HashParams() {
  P p;
  p.set_num_buckets(kRows);
  p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed("seed");
  return p;
}
dp::SimpleHashingParams SimpleParams() { return HashParams<dp::SimpleHashingParams>(); }
dp::CuckooHashingParams CuckooParams() {
  auto p = HashParams<dp::CuckooHashingParams>();
  p.set_num_hash_functions(2);
  return p;
}
std::unique_ptr<dp::DenseDpfPirServer::Database> DenseDb() {
  dp::DenseDpfPirDatabase::Builder b;
  for (int i = 0; i < kRows; ++i) b.Insert(RowOf(i));
  return std::move(*b.Build());
}
std::unique_ptr<dp::SimpleHashingSparseDpfPirServer::Database> SimpleDb() {
  dp::SimpleHashedDpfPirDatabase::Builder b;
  b.SetParams(SimpleParams());
  for (int i = 0; i < 20; ++i) b.Insert({KeyOf(i), RowOf(i)});
  return std::move(*b.Build());
}
std::unique_ptr<dp::CuckooHashingSparseDpfPirServer::Database> CuckooDb() {
  dp::CuckooHashedDpfPirDatabase::Builder b;
  b.SetParams(CuckooParams());
  for (int i = 0; i < 20; ++i) b.Insert({KeyOf(i), RowOf(i)});
  return std::move(*b.Build());
}
dp::PirConfig DenseConfig() {
  dp::PirConfig c;
  c.mutable_dense_dpf_pir_config()->set_num_elements(kRows);
  return c;
}
absl::StatusOr<std::string> Seal(absl::string_view p, absl::string_view c) { return std::string(p.rbegin(), p.rend()) + std::string(c); }
absl::StatusOr<std::string> Open(absl::string_view p, absl::string_view c) {
  if (p.size() < c.size()) return absl::InvalidArgumentError("short");
  p.remove_suffix(c.size());
  return std::string(p.rbegin(), p.rend());
}
dp::PirServerPublicParams Published(bool simple) {
  dp::PirServerPublicParams pp;
  if (simple) *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = SimpleParams();
  else *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = CuckooParams();
  return pp;
}
std::unique_ptr<dp::DenseDpfPirClient> DenseClient() { return std::move(*dp::DenseDpfPirClient::Create(DenseConfig(), Seal)); }
std::unique_ptr<dp::SimpleHashingSparseDpfPirClient> SimpleClient() { return std::move(*dp::SimpleHashingSparseDpfPirClient::Create(Published(true), Seal)); }
std::unique_ptr<dp::CuckooHashingSparseDpfPirClient> CuckooClient() { return std::move(*dp::CuckooHashingSparseDpfPirClient::Create(Published(false), Seal)); }
// A leader with its helper.
template <typename S, typename P, typename Db>
std::unique_ptr<dp::DpfPirServer> LeaderOf(const P& p, Db db) {
  auto helper = S::CreateHelper(p, db(), Open);
  if (!helper.ok()) abort();
  auto send = [h = std::shared_ptr<S>(std::move(*helper))](const dp::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
    w();
    return h->HandleRequest(r);
  };
  auto l = S::CreateLeader(p, db(), std::move(send));
  if (!l.ok()) abort();
  return std::move(*l);
}

// Messages the calls need, made in another process so that nothing the library
// initializes on first use is initialized yet when the threads start.
Inputs MakeInputs() {
  Inputs in;
  auto keys = [&](const std::string& n, auto k) {
    if (!k.ok()) abort();
    in[n + "0"] = k->first.SerializeAsString();
    in[n + "1"] = k->second.SerializeAsString();
  };
  dp::Tuple<Mod, Mod> mod(Mod(7), Mod(4294967290u));
  keys("tree", MakeTree()->GenerateKeysIncremental(u128{300}, uint16_t(9), uint32_t(10), Pair32(11, 12)));
  keys("blocks", MakeBlocks()->GenerateKeys(77, Block(u128{5} << 99)));
  keys("mod", MakeMod()->GenerateKeys(33, mod));
  keys("dcf", MakeDcf()->GenerateKeys(90, uint64_t(1) << 50));
  keys("mic", MakeMic()->Gen(13, {3, 60}));
  auto request = [&](const std::string& n, auto client, auto q, auto leader) {
    auto p = client->CreatePlainRequests(q);
    auto f = client->CreateRequest(q);
    if (!p.ok() || !f.ok()) abort();
    dp::PirRequest r;
    *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(*p);
    in[n + "plain"] = r.SerializeAsString();
    in[n + "leader"] = f->first.SerializeAsString();
    in[n + "state"] = f->second.SerializeAsString();
    *r.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = f->first.dpf_pir_request().leader_request().encrypted_helper_request();
    in[n + "helper"] = r.SerializeAsString();
    auto resp = leader->HandleRequest(f->first);
    if (!resp.ok()) { fprintf(stderr, "%s\n", resp.status().ToString().c_str()); abort(); }
    in[n + "response"] = resp->SerializeAsString();
  };
  for (int i = 0; i < 2; ++i) {
    request(F("dense%d", i), DenseClient(), i ? std::vector<int>{130, 5} : std::vector<int>{64}, LeaderOf<dp::DenseDpfPirServer>(DenseConfig(), DenseDb));
    std::vector<std::string> q = i ? std::vector<std::string>{KeyOf(3), "absent"} : std::vector<std::string>{KeyOf(19)};
    request(F("simple%d", i), SimpleClient(), q, LeaderOf<dp::SimpleHashingSparseDpfPirServer>(SimpleParams(), SimpleDb));
    request(F("cuckoo%d", i), CuckooClient(), q, LeaderOf<dp::CuckooHashingSparseDpfPirServer>(CuckooParams(), CuckooDb));
  }
  return in;
}
template <typename M>
M Parse(const Inputs& in, const std::string& name) {
  M m;
  auto it = in.find(name);
  if (it == in.end() || !m.ParseFromString(it->second)) { fprintf(stderr, "input %s\n", name.c_str()); abort(); }
  return m;
}
template <typename T>
void AddValue(Dg& d, const T& v);
template <> void AddValue(Dg& d, const uint16_t& v) { d(v); }
template <> void AddValue(Dg& d, const uint32_t& v) { d(v); }
template <> void AddValue(Dg& d, const uint64_t& v) { d(v); }
template <> void AddValue(Dg& d, const u128& v) { d.Wide(v); }
template <> void AddValue(Dg& d, const Block& v) { d.Wide(v.value()); }
template <> void AddValue(Dg& d, const Pair32& v) { d(std::get<0>(v.value())), d(std::get<1>(v.value())); }
template <> void AddValue(Dg& d, const dp::Tuple<Mod, Mod>& v) { d(std::get<0>(v.value()).value()), d(std::get<1>(v.value()).value()); }
template <typename T>
void AddAll(Dg& d, const absl::StatusOr<std::vector<T>>& v) {
  if (!v.ok()) { d(v.status()); return; }
  d(v->size());
  for (const T& x : *v) AddValue(d, x);
}
template <typename K>
void AddKeys(Dg& d, const absl::StatusOr<std::pair<K, K>>& k) {
  if (!k.ok()) { d(k.status()); return; }
  d(k->first);
  d(k->second);
}

std::vector<Kind> Kinds(const Inputs& in) {
  std::vector<Kind> v;
  using Dpf = dp::DistributedPointFunction;
  {
    Kind k{"tree", [] { return std::shared_ptr<void>(std::shared_ptr<Dpf>(MakeTree())); }, {}};
    k.ops.push_back({"gen", [](void* o) { Dg d; AddKeys(d, static_cast<Dpf*>(o)->GenerateKeysIncremental(u128{300}, uint16_t(9), uint32_t(10), Pair32(11, 12))); return d.h; }});
    k.ops.push_back({"context", [&in](void* o) {
      Dg d;
      auto c = static_cast<const Dpf*>(o)->CreateEvaluationContext(Parse<dp::DpfKey>(in, "tree0"));
      if (c.ok()) d(*c); else d(c.status());
      return d.h;
    }});
    for (int party = 0; party < 2; ++party) {
      k.ops.push_back({F("until%d", party), [&in, party](void* o) {
        Dg d;
        auto* f = static_cast<const Dpf*>(o);
        auto c = f->CreateEvaluationContext(Parse<dp::DpfKey>(in, F("tree%d", party)));
        if (!c.ok()) { d(c.status()); return d.h; }
        AddAll(d, f->EvaluateUntil<uint16_t>(0, {}, *c));
        AddAll(d, f->EvaluateUntil<uint32_t>(1, {0, 2}, *c));
        AddAll(d, f->EvaluateNext<Pair32>({18, 3, 19}, *c));
        return d.h;
      }});
      k.ops.push_back({F("at%d", party), [&in, party](void* o) {
        Dg d;
        auto* f = static_cast<const Dpf*>(o);
        auto key = Parse<dp::DpfKey>(in, F("tree%d", party));
        AddAll(d, f->EvaluateAt<Pair32>(key, 2, {300, 0, 511, 300, u128(party)}));
        AddAll(d, f->EvaluateAt<uint32_t>(key, 1, {18}));
        return d.h;
      }});
    }
    v.push_back(k);
  }
  {
    Kind k{"blocks", [] { return std::shared_ptr<void>(std::shared_ptr<Dpf>(MakeBlocks())); }, {}};
    k.ops.push_back({"gen", [](void* o) { Dg d; AddKeys(d, static_cast<Dpf*>(o)->GenerateKeys(77, Block(u128{5} << 99))); return d.h; }});
    k.ops.push_back({"all", [&in](void* o) {
      Dg d;
      auto* f = static_cast<const Dpf*>(o);
      auto c = f->CreateEvaluationContext(Parse<dp::DpfKey>(in, "blocks0"));
      if (c.ok()) AddAll(d, f->EvaluateNext<Block>({}, *c)); else d(c.status());
      return d.h;
    }});
    k.ops.push_back({"at", [&in](void* o) {
      Dg d;
      AddAll(d, static_cast<const Dpf*>(o)->EvaluateAt<Block>(Parse<dp::DpfKey>(in, "blocks1"), 0, {77, 78, 0, 255}));
      return d.h;
    }});
    k.ops.push_back({"apply", [&in](void* o) {
      Dg d;
      std::vector<dp::DpfKey> keys = {Parse<dp::DpfKey>(in, "blocks1"), Parse<dp::DpfKey>(in, "blocks0")};
      std::vector<u128> x = {77, 17};
      d(static_cast<const Dpf*>(o)->EvaluateAndApply<Block>(keys, x, [&d](absl::Span<const Block> s) {
        for (auto& b : s) d.Wide(b.value());
        return true;
      }));
      return d.h;
    }});
    v.push_back(k);
  }
  {
    using T = dp::Tuple<Mod, Mod>;
    Kind k{"mod", [] { return std::shared_ptr<void>(std::shared_ptr<Dpf>(MakeMod())); }, {}};
    k.ops.push_back({"gen", [](void* o) { Dg d; AddKeys(d, static_cast<Dpf*>(o)->GenerateKeys(33, T(Mod(7), Mod(8)))); return d.h; }});
    k.ops.push_back({"all", [&in](void* o) {
      Dg d;
      auto* f = static_cast<const Dpf*>(o);
      auto c = f->CreateEvaluationContext(Parse<dp::DpfKey>(in, "mod0"));
      if (c.ok()) AddAll(d, f->EvaluateNext<T>({}, *c)); else d(c.status());
      return d.h;
    }});
    k.ops.push_back({"at", [&in](void* o) { Dg d; AddAll(d, static_cast<const Dpf*>(o)->EvaluateAt<T>(Parse<dp::DpfKey>(in, "mod1"), 0, {33, 34, 0})); return d.h; }});
    v.push_back(k);
  }
  {
    using H = dp::Aes128FixedKeyHash;
    Kind k{"hash", [] {
      auto h = H::Create(absl::MakeUint128(123, 456));
      if (!h.ok()) abort();
      return std::shared_ptr<void>(std::make_shared<H>(std::move(*h)));
    }, {}};
    for (int n : {1, 3, 64, 65, 130})
      k.ops.push_back({F("eval%d", n), [n](void* o) {
        std::vector<u128> a(n), b(n);
        for (int i = 0; i < n; ++i) a[i] = absl::MakeUint128(i * 77 + n, n);
        Dg d;
        d(static_cast<const H*>(o)->Evaluate(a, absl::MakeSpan(b)));
        d.Raw(b.data(), n * 16);
        return d.h;
      }});
    for (int n : {600, 1100})
      k.ops.push_back({F("eval%d", n), [n](void* o) {
        std::vector<u128> a(n), b(n);
        for (int i = 0; i < n; ++i) a[i] = absl::MakeUint128(i * 77 + n, n);
        Dg d;
        d(static_cast<const H*>(o)->Evaluate(a, absl::MakeSpan(b)));
        d.Raw(b.data(), n * 16);
        return d.h;
      }});
    k.ops.push_back({"inplace70", [](void* o) {
      std::vector<u128> a(70);
      for (int i = 0; i < 70; ++i) a[i] = i * 3;
      Dg d;
      d(static_cast<const H*>(o)->Evaluate(a, absl::MakeSpan(a)));
      d.Raw(a.data(), 70 * 16);
      return d.h;
    }});
    v.push_back(k);
  }
  {
    using C = dp::DistributedComparisonFunction;
    Kind k{"dcf", [] { return std::shared_ptr<void>(std::shared_ptr<C>(MakeDcf())); }, {}};
    k.ops.push_back({"gen", [](void* o) { Dg d; AddKeys(d, static_cast<C*>(o)->GenerateKeys(90, uint64_t(5))); return d.h; }});
    for (int party = 0; party < 2; ++party)
      k.ops.push_back({F("eval%d", party), [&in, party](void* o) {
        Dg d;
        auto r = static_cast<C*>(o)->Evaluate<uint64_t>(Parse<dp::DcfKey>(in, F("dcf%d", party)), 89 + party);
        if (r.ok()) d(*r); else d(r.status());
        return d.h;
      }});
    k.ops.push_back({"batch", [&in](void* o) {
      Dg d;
      std::vector<dp::DcfKey> keys(5, Parse<dp::DcfKey>(in, "dcf0"));
      AddAll(d, static_cast<C*>(o)->BatchEvaluate<uint64_t>(keys, {0, 127, 90, 89, 91}));
      return d.h;
    }});
    v.push_back(k);
  }
  {
    using G = fg::MultipleIntervalContainmentGate;
    Kind k{"gate", [] { return std::shared_ptr<void>(std::shared_ptr<G>(MakeMic())); }, {}};
    k.ops.push_back({"gen", [](void* o) { Dg d; AddKeys(d, static_cast<G*>(o)->Gen(13, {3, 60})); return d.h; }});
    for (int party = 0; party < 2; ++party)
      k.ops.push_back({F("eval%d", party), [&in, party](void* o) { Dg d; AddAll(d, static_cast<G*>(o)->Eval(Parse<fg::MicKey>(in, F("mic%d", party)), 25 + party)); return d.h; }});
    v.push_back(k);
  }
  auto calls = [](auto* f) {
    Dg d;
    for (const char* s : {"", "a", "a longer input that spans more than one block of the hash function, certainly"}) d((*f)(s, 1000003));
    d((*f)("b", 1));
    return d.h;
  };
  // Inputs beyond any buffer a function might keep.
  auto long_calls = [](auto* f) {
    Dg d;
    for (int n : {300, 1100, 4200, 70000}) d((*f)(std::string(n, 'a' + n % 7), 1000003));
    return d.h;
  };
  {
    using H = dp::SHA256HashFunction;
    Kind k{"sha256", [] { return std::shared_ptr<void>(std::make_shared<H>("seed of the function")); }, {}};
    k.ops.push_back({"calls", [calls](void* o) { return calls(static_cast<const H*>(o)); }});
    k.ops.push_back({"call", [](void* o) { return uint64_t((*static_cast<const H*>(o))("x", INT_MAX)); }});
    k.ops.push_back({"long", [long_calls](void* o) { return long_calls(static_cast<const H*>(o)); }});
    v.push_back(k);
  }
  {
    using H = dp::FarmHashFunction;
    Kind k{"farm", [] { return std::shared_ptr<void>(std::make_shared<H>("seed of the function")); }, {}};
    k.ops.push_back({"calls", [calls](void* o) { return calls(static_cast<const H*>(o)); }});
    k.ops.push_back({"long", [long_calls](void* o) { return long_calls(static_cast<const H*>(o)); }});
    v.push_back(k);
  }
  {
    using H = dp::HashFamily;
    Kind k{"family", [] {
      dp::HashFamilyConfig c;
      c.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
      c.set_seed("family seed");
      auto f = dp::CreateHashFamilyFromConfig(c);
      if (!f.ok()) abort();
      return std::shared_ptr<void>(std::make_shared<H>(std::move(*f)));
    }, {}};
    for (const char* s : {"one", "two"})
      k.ops.push_back({s, [calls, s](void* o) {
        dp::HashFunction f = (*static_cast<const H*>(o))(s);
        return calls(&f);
      }});
    k.ops.push_back({"long", [long_calls](void* o) {
      dp::HashFunction f = (*static_cast<const H*>(o))(std::string(5000, 's'));
      return long_calls(&f);
    }});
    v.push_back(k);
  }
  auto db_kind = [&](const char* name, auto make, auto add) {
    using Db = typename decltype(make())::element_type;
    Kind k{name, [make] { return std::shared_ptr<void>(std::shared_ptr<Db>(make())); }, {}};
    for (int n : {1, 3})
      k.ops.push_back({F("product%d", n), [add, n](void* o) {
        std::vector<std::vector<Block>> sel(n);
        for (int i = 0; i < n; ++i) sel[i] = {Block(absl::MakeUint128(Mix(i), Mix(i + n))), Block(u128(i * 3 + 1))};
        Dg d;
        auto r = static_cast<const Db*>(o)->InnerProductWith(sel);
        if (!r.ok()) { d(r.status()); return d.h; }
        for (auto& x : *r) add(d, x);
        return d.h;
      }});
    k.ops.push_back({"sizes", [](void* o) {
      Dg d;
      d(static_cast<const Db*>(o)->size()), d(static_cast<const Db*>(o)->num_selection_bits());
      return d.h;
    }});
    v.push_back(k);
  };
  auto add_one = [](Dg& d, const std::string& s) { d(s); };
  auto add_two = [](Dg& d, const std::pair<std::string, std::string>& s) { d(s.first), d(s.second); };
  db_kind("dense-db", DenseDb, add_one);
  db_kind("simple-db", SimpleDb, add_one);
  db_kind("cuckoo-db", CuckooDb, add_two);
  auto client_kind = [&](const char* kind, auto make, auto query, auto add) {
    using C = typename decltype(make())::element_type;
    Kind k{std::string(kind) + "-client", [make] { return std::shared_ptr<void>(std::shared_ptr<C>(make())); }, {}};
    for (int i = 0; i < 2; ++i) {
      std::string name = F("%s%d", kind, i);
      k.ops.push_back({F("request%d", i), [query, i](void* o) {
        Dg d;
        auto q = query(i);
        auto r = static_cast<const C*>(o)->CreateRequest(q);
        if (r.ok()) d(r->first), d(r->second); else d(r.status());
        return d.h;
      }});
      k.ops.push_back({F("response%d", i), [&in, name, add](void* o) {
        Dg d;
        auto r = static_cast<const C*>(o)->HandleResponse(Parse<dp::PirResponse>(in, name + "response"), Parse<dp::PirRequestClientState>(in, name + "state"));
        if (!r.ok()) { d(r.status()); return d.h; }
        for (auto& x : *r) add(d, x);
        return d.h;
      }});
    }
    v.push_back(k);
  };
  auto add_opt = [](Dg& d, const absl::optional<std::string>& s) { d(s.has_value()), d(s.value_or("")); };
  auto words = [](int i) { return i ? std::vector<std::string>{KeyOf(3), "absent"} : std::vector<std::string>{KeyOf(19)}; };
  client_kind("dense", DenseClient, [](int i) { return i ? std::vector<int>{130, 5} : std::vector<int>{64}; }, add_one);
  client_kind("simple", SimpleClient, words, add_opt);
  client_kind("cuckoo", CuckooClient, words, add_opt);
  auto server_kind = [&](const char* kind, const char* role, std::function<std::unique_ptr<dp::DpfPirServer>()> make, std::vector<std::string> requests) {
    using S = dp::DpfPirServer;
    Kind k{std::string(kind) + "-" + role, [make] { return std::shared_ptr<void>(std::shared_ptr<S>(make())); }, {}};
    for (auto& r : requests)
      k.ops.push_back({r, [&in, r](void* o) {
        Dg d;
        auto a = static_cast<const S*>(o)->HandleRequest(Parse<dp::PirRequest>(in, r));
        if (a.ok()) d(*a); else d(a.status());
        return d.h;
      }});
    k.ops.push_back({"params", [](void* o) { 
      // Copied first: serializing a message stores its size in it.
      dp::PirServerPublicParams p = static_cast<const S*>(o)->GetPublicParams();
      Dg d;
      d(p);
      return d.h;
     }});
    v.push_back(k);
  };
  using DS = dp::DenseDpfPirServer;
  using SS = dp::SimpleHashingSparseDpfPirServer;
  using CS = dp::CuckooHashingSparseDpfPirServer;
  auto up = [](auto x) -> std::unique_ptr<dp::DpfPirServer> { if (!x.ok()) abort(); return std::move(*x); };
  auto both = [](const char* k, const char* r) { return std::vector<std::string>{F("%s0%s", k, r), F("%s1%s", k, r)}; };
  server_kind("dense", "server", [up] { return up(DS::CreatePlain(DenseConfig(), DenseDb())); }, {"dense0plain", "dense1plain", "dense0leader"});
  server_kind("simple", "server", [up] { return up(SS::CreatePlain(SimpleParams(), SimpleDb())); }, both("simple", "plain"));
  server_kind("cuckoo", "server", [up] { return up(CS::CreatePlain(CuckooParams(), CuckooDb())); }, both("cuckoo", "plain"));
  server_kind("dense", "helper", [up] { return up(DS::CreateHelper(DenseConfig(), DenseDb(), Open)); }, both("dense", "helper"));
  server_kind("simple", "helper", [up] { return up(SS::CreateHelper(SimpleParams(), SimpleDb(), Open)); }, both("simple", "helper"));
  server_kind("cuckoo", "helper", [up] { return up(CS::CreateHelper(CuckooParams(), CuckooDb(), Open)); }, both("cuckoo", "helper"));
  server_kind("dense", "leader", [] { return LeaderOf<DS>(DenseConfig(), DenseDb); }, both("dense", "leader"));
  server_kind("simple", "leader", [] { return LeaderOf<SS>(SimpleParams(), SimpleDb); }, both("simple", "leader"));
  server_kind("cuckoo", "leader", [] { return LeaderOf<CS>(CuckooParams(), CuckooDb); }, both("cuckoo", "leader"));
  {
    // Every thread works on objects of its own.
    Kind k{"own", [] { return std::shared_ptr<void>(std::make_shared<int>(0)); }, {}};
    auto prng = [](const char* seed) {
      return [seed](void*) {
        Dg d;
        auto p = dp::Aes128CtrSeededPrng::Create(seed);
        if (!p.ok()) { d(p.status()); return d.h; }
        for (int n : {1, 40, 0, 16}) d((*p)->GetRandomBytes(n));
        return d.h;
      };
    };
    k.ops.push_back({"prng-a", prng("0123456789abcdef")});
    k.ops.push_back({"prng-b", prng("another seed ...")});
    k.ops.push_back({"rng", [](void*) {
      Dg d;
      auto r = dp::BasicRng::Create("");
      if (!r.ok()) { d(r.status()); return d.h; }
      for (int i = 0; i < 3; ++i) {
        auto a = (*r)->Rand8();
        auto b = (*r)->Rand64();
        auto c = (*r)->Rand128();
        if (!a.ok() || !b.ok() || !c.ok()) { d(1); return d.h; }
        d(*a), d(*b), d.Wide(*c);
      }
      return d.h;
    }});
    auto table = [](int salt) {
      return [salt](void*) {
        Dg d;
        auto t = dp::CuckooHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 7, 2, 4);
        if (!t.ok()) { d(t.status()); return d.h; }
        for (int i = 0; i < 6; ++i) d((*t)->Insert(KeyOf(i + salt)));
        for (auto& x : (*t)->GetTable()) d(x.value_or("-"));
        for (auto& x : (*t)->GetStash()) d(x);
        return d.h;
      };
    };
    k.ops.push_back({"cuckoo-a", table(0)});
    k.ops.push_back({"cuckoo-b", table(3)});
    k.ops.push_back({"tables", [](void*) {
      Dg d;
      auto t = dp::SimpleHashTable::Create(dp::HashFamily(dp::FarmHashFamily()), 4, 2);
      auto m = dp::MultipleChoiceHashTable::Create(dp::HashFamily(dp::SHA256HashFamily()), 4, 2, 3);
      if (!t.ok() || !m.ok()) { d(1); return d.h; }
      for (int i = 0; i < 5; ++i) d((*t)->Insert(KeyOf(i))), d((*m)->Insert(KeyOf(i)));
      for (auto& b : (*t)->GetTable()) for (auto& x : b) d(x);
      for (auto& b : (*m)->GetTable()) for (auto& x : b) d(x);
      return d.h;
    }});
    k.ops.push_back({"tree", [&in](void*) {
      Dg d;
      auto f = MakeTree();
      AddAll(d, f->EvaluateAt<uint32_t>(Parse<dp::DpfKey>(in, "tree0"), 1, {18, 0}));
      return d.h;
    }});
    k.ops.push_back({"mod", [&in](void*) {
      Dg d;
      auto f = MakeMod();
      AddKeys(d, f->GenerateKeys(3, dp::Tuple<Mod, Mod>(Mod(1), Mod(2))));
      return d.h;
    }});
    k.ops.push_back({"dcf", [&in](void*) {
      Dg d;
      auto r = MakeDcf()->Evaluate<uint64_t>(Parse<dp::DcfKey>(in, "dcf1"), 3);
      if (r.ok()) d(*r); else d(r.status());
      return d.h;
    }});
    k.ops.push_back({"gate", [&in](void*) { Dg d; AddAll(d, MakeMic()->Eval(Parse<fg::MicKey>(in, "mic1"), 7)); return d.h; }});
    k.ops.push_back({"dense", [&in](void*) {
      Dg d;
      auto s = DS::CreatePlain(DenseConfig(), DenseDb());
      auto a = (*s)->HandleRequest(Parse<dp::PirRequest>(in, "dense0plain"));
      if (a.ok()) d(*a); else d(a.status());
      return d.h;
    }});
    k.ops.push_back({"cuckoo", [&in](void*) {
      Dg d;
      auto s = CS::CreatePlain(CuckooParams(), CuckooDb());
      auto a = (*s)->HandleRequest(Parse<dp::PirRequest>(in, "cuckoo0plain"));
      if (a.ok()) d(*a); else d(a.status());
      return d.h;
    }});
    k.ops.push_back({"params", [](void*) {
      Dg d;
      dp::PirConfig c;
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(9);
      c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
      auto p = CS::GenerateParams(c);
      if (p.ok()) d(*p); else d(p.status());
      return d.h;
    }});
    v.push_back(k);
  }
  return v;
}

// ---------------------------------------------------------------- exploration
// Lives in memory shared with the child process of a case.
struct Report {
  bool finished;
  long runs, points, accesses, shared_writes, states;
  int nfail;
  char sig[16][64];
  char msg[16][900];
  uint64_t state[4096];
};
Report* rep;
void Problem(const char* sig, const std::string& msg) {
  for (int i = 0; i < rep->nfail; ++i)
    if (!strcmp(rep->sig[i], sig)) return;
  if (rep->nfail >= 16) return;
  snprintf(rep->sig[rep->nfail], 64, "%s", sig);
  snprintf(rep->msg[rep->nfail++], 900, "%s", msg.c_str());
}
// Runs body() in a child process.
bool InChild(const std::function<void()>& body) {
  memset(rep, 0, sizeof *rep);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(W().case_timeout);
    body();
    rep->finished = true;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Trans(rep->runs);
  Trace(rep->runs);
  Count("accesses to shared memory", rep->accesses);
  Count("unsynchronized or plain writes to shared memory", rep->shared_writes);
  Count("scheduling points", rep->points);
  for (int i = 0; i < rep->states && i < 4096; ++i) State(rep->state[i]);
  for (int i = 0; i < rep->nfail; ++i) Fail(rep->sig[i], "%s", rep->msg[i]);
  if (!rep->finished) {
    Fail(WIFSIGNALED(status) ? F("crash-%d", WTERMSIG(status)) : "no-end", "the process running the threads ended early (status %x)", status);
    return false;
  }
  return true;
}

struct Plan {
  const Kind* kind;
  std::vector<std::vector<int>> calls;  // per thread, indices into kind->ops
  std::string Name() const {
    std::string s = kind->name + ":";
    for (size_t t = 0; t < calls.size(); ++t) {
      s += t ? " | " : " ";
      for (size_t i = 0; i < calls[t].size(); ++i) s += (i ? ";" : "") + kind->ops[calls[t][i]].name;
    }
    return s;
  }
};
uint64_t Stream(int t) { return Mix(t * 77 + 5); }

using Digests = std::vector<std::vector<uint64_t>>;
sched::Run RunPlan(const Plan& p, int first, const std::vector<sched::Switch>& sw, bool record, Digests* out) {
  std::shared_ptr<void> obj = p.kind->make();
  void* o = obj.get();
  std::vector<std::function<void()>> fns;
  std::vector<uint64_t> streams;
  int n = p.calls.size();
  // Results of each thread, on this thread's stack.
  uint64_t results[sched::kMaxThreads][4] = {};
  for (int t = 0; t < n; ++t) {
    streams.push_back(Stream(t));
    fns.push_back([&results, &p, o, t] {
      for (size_t i = 0; i < p.calls[t].size(); ++i) {
        uint64_t r = p.kind->ops[p.calls[t][i]].fn(o);
        results[t][i] = r;
      }
    });
  }
  auto r = sched::Execute(fns, first, sw, record, streams.data());
  out->clear();
  for (int t = 0; t < n; ++t) out->push_back(std::vector<uint64_t>(results[t], results[t] + p.calls[t].size()));
  ++rep->runs;
  rep->accesses += r.accesses;
  return r;
}
void Explore(const Plan& p, int first, int bound, size_t per_site) {
  int n = p.calls.size();
  std::vector<Digests> seen;
  auto check = [&](const sched::Run& r, const std::string& schedule) {
    if (r.stuck) Problem("stuck", p.Name() + " " + schedule + ": no thread can run");
    for (auto& x : r.races) Problem("race", p.Name() + " " + schedule + ": unsynchronized " + x);
    return !r.stuck;
  };
  auto show = [](int first, const std::vector<sched::Switch>& sw) {
    std::string s = F("thread %d first", first);
    for (auto& x : sw) s += F(", thread %d gives way to %d at its point %ld", x.tid, x.to, x.at);
    return s;
  };
  // Nothing has run in this process yet: first use of everything.
  std::vector<std::pair<std::string, Digests>> all;
  Digests d;
  auto cold = RunPlan(p, first, {}, true, &d);
  if (!check(cold, "cold, " + show(first, {}))) return;
  all.push_back({"cold", d});
  // Each thread alone on an object of its own.
  Digests want;
  for (int t = 0; t < n; ++t) {
    std::shared_ptr<void> obj = p.kind->make();
    std::vector<uint64_t> res(p.calls[t].size());
    uint64_t tmp[4] = {};
    uint64_t stream = Stream(t);
    void* o = obj.get();
    auto r = sched::Execute({[&] { for (size_t i = 0; i < p.calls[t].size(); ++i) tmp[i] = p.kind->ops[p.calls[t][i]].fn(o); }}, 0, {}, false, &stream);
    ++rep->runs;
    want.push_back(std::vector<uint64_t>(tmp, tmp + p.calls[t].size()));
  }
  auto compare = [&](const std::string& schedule, const Digests& got) {
    if (got != want) Problem("result", p.Name() + " " + schedule + ": a call returns something else than alone");
    uint64_t h = 0;
    for (auto& t : got) for (uint64_t x : t) h = Mix(h ^ x);
    bool dup = false;
    for (long i = 0; i < rep->states && i < 4096; ++i) dup |= rep->state[i] == h;
    if (!dup && rep->states < 4096) rep->state[rep->states++] = h;
  };
  compare("cold, " + show(first, {}), d);
  // The points at which the running thread may be interrupted: every
  // synchronization, every write to shared memory, every draw of randomness, and
  // the first entries of every function from every place.
  auto base = RunPlan(p, first, {}, true, &d);
  check(base, show(first, {}));
  compare(show(first, {}), d);
  rep->shared_writes += base.shared_writes;
  auto points = [&](const sched::Run& r, int t, long from) {
    std::vector<long> v;
    std::unordered_map<uintptr_t, size_t> times;
    for (size_t i = 0; i < r.log[t].size(); ++i) {
      bool entry = r.log[t][i].kind == sched::kEntry;
      if (times[r.log[t][i].pc]++ >= (entry ? per_site : per_site * 8)) continue;
      if ((long)i >= from) v.push_back(i);
    }
    return v;
  };
  auto others = [&](int t) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i) if (i != t) v.push_back(i);
    return v;
  };
  for (long i : points(base, first, 0)) {
    ++rep->points;
    for (int to : others(first)) {
      std::vector<sched::Switch> sw = {{first, i, to}};
      auto r = RunPlan(p, first, sw, bound > 1, &d);
      if (!check(r, show(first, sw))) return;
      compare(show(first, sw), d);
      if (bound > 1)
        // A second switch, back from the other thread.
        for (long j : points(r, to, 0))
          for (int back : others(to)) {
            auto sw2 = sw;
            sw2.push_back({to, j, back});
            auto r2 = RunPlan(p, first, sw2, false, &d);
            if (!check(r2, show(first, sw2))) return;
            compare(show(first, sw2), d);
          }
      if (rep->nfail) return;
    }
  }
}
}  // namespace

void VpRun() {
  sched::Init();
  rep = static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // Inputs travel through a shared page range.
  const size_t kBuf = 8 << 20;
  char* buf = static_cast<char*>(mmap(nullptr, kBuf, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  pid_t pid = fork();
  if (pid == 0) {
    size_t at = 8;
    for (auto& [k, v] : MakeInputs())
      for (const std::string* s : std::vector<const std::string*>{&k, &v}) {
        uint64_t n = s->size();
        if (at + 8 + n > kBuf) _exit(4);
        memcpy(buf + at, &n, 8);
        memcpy(buf + at + 8, s->data(), n);
        at += 8 + n;
      }
    *reinterpret_cast<uint64_t*>(buf) = at;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  size_t end = *reinterpret_cast<uint64_t*>(buf);
  if (status != 0 || end == 0) { fprintf(stderr, "inputs: status %x\n", status); exit(3); }
  Inputs in;
  std::vector<std::string> parts;
  for (size_t at = 8; at < end;) {
    uint64_t n;
    memcpy(&n, buf + at, 8);
    parts.emplace_back(buf + at + 8, n);
    at += 8 + n;
  }
  for (size_t i = 0; i + 1 < parts.size(); i += 2) in[parts[i]] = parts[i + 1];
  auto kinds = Kinds(in);
  for (auto& k : kinds) {
    int m = k.ops.size();
    for (int a = 0; a < m; ++a)
      for (int b = 0; b < m; ++b) {
        if (!Case(F("two/%s/%s-%s", k.name.c_str(), k.ops[a].name.c_str(), k.ops[b].name.c_str()))) continue;
        Plan p{&k, {{a}, {b}}};
        InChild([&] { Explore(p, 0, 1, Pick(1, 4)); });
      }
    // Two calls in one thread, one in the other.
    for (int a = 0; a < m; ++a) {
      int b = (a + 1) % m;
      if (!Case(F("three-calls/%s/%s", k.name.c_str(), k.ops[a].name.c_str()))) continue;
      Plan p{&k, {{a, b}, {b, a}}};
      InChild([&] { Explore(p, 0, 1, Pick(1, 2)); });
    }
    // Three threads.
    for (int a = 0; a < m; ++a) {
      if (!Case(F("threads/%s/%s", k.name.c_str(), k.ops[a].name.c_str()))) continue;
      Plan p{&k, {{a}, {(a + 1) % m}, {a}}};
      InChild([&] { Explore(p, 0, 1, 1); });
    }
    // Two preemptions.
    for (int a = 0; a < m; ++a) {
      if (!Thorough() && k.name != "hash" && k.name != "sha256") continue;
      if (!Case(F("preempt2/%s/%s", k.name.c_str(), k.ops[a].name.c_str()))) continue;
      Plan p{&k, {{a}, {a}}};
      InChild([&] { Explore(p, 0, 2, 1); });
    }
  }
}
