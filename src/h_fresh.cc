// P33: secrets are drawn fresh from the system's random source. Sequences of
// generations on any objects; every bit of the source flipped.
#include <functional>

#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "dpf/distributed_point_function.h"
#include "flow.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir_common.h"
using namespace vp;

namespace {
namespace fg = dp::fss_gates;
using Items = std::vector<FlowItem>;
std::string SeedOf(const dp::DpfKey& k) { return Word(k.seed().low()) + Word(k.seed().high()); }

// One generation: appends the secrets it produced. False on an error.
struct Ops {
  std::vector<std::unique_ptr<dp::DistributedPointFunction>> dpf;
  std::vector<std::unique_ptr<dp::DistributedComparisonFunction>> dcf;
  std::map<int, std::unique_ptr<fg::MultipleIntervalContainmentGate>> mic;
  std::vector<std::unique_ptr<dp::DenseDpfPirClient>> dense;
  std::vector<std::unique_ptr<dp::SimpleHashingSparseDpfPirClient>> simple;
  std::vector<std::unique_ptr<dp::CuckooHashingSparseDpfPirClient>> cuckoo;
  std::unique_ptr<dp::BasicRng> rng;
  int calls = 0;
};
dp::DpfParameters Param(int log, int bits) {
  dp::DpfParameters p;
  p.set_log_domain_size(log);
  p.mutable_value_type()->mutable_integer()->set_bitsize(bits);
  return p;
}
using Op = std::function<bool(Ops&, Items&, const std::string&)>;
struct Named {
  std::string name;
  Op op;
};
bool Keys(Items& it, const std::string& id, absl::StatusOr<std::pair<dp::DpfKey, dp::DpfKey>> k) {
  if (!k.ok()) { Fail("generate", "%s: %s", id.c_str(), k.status().ToString().c_str()); return false; }
  it.push_back({id + " first key seed", SeedOf(k->first)});
  it.push_back({id + " second key seed", SeedOf(k->second)});
  return true;
}
Named GateOp(int log, int n) {
  return {F("gate%d.%d", log, n), [n, log](Ops& o, Items& it, const std::string& id) {
            auto& gate = o.mic[log];
            if (!gate) {
              fg::MicParameters p;
              p.set_log_group_size(log);
              for (int i = 0; i < n; ++i) {
                auto* x = p.add_intervals();
                const uint64_t top = log < 10 ? (1u << log) - 1 : 1000;
                x->mutable_lower_bound()->set_value_uint64(std::min<uint64_t>(i, top));
                x->mutable_upper_bound()->set_value_uint64(std::min<uint64_t>(i + 20 / (i + 1), top));
              }
              auto m = fg::MultipleIntervalContainmentGate::Create(p);
              if (!m.ok()) { Fail("create", "%s", m.status().ToString().c_str()); return false; }
              gate = std::move(*m);
            }
            std::vector<absl::uint128> masks;
            for (int i = 0; i < n; ++i) masks.push_back(i * i & 1);
            masks[n - 1] = 1;
            auto k = gate->Gen(o.calls % 3 * 5 % (1 << std::min(log, 4)), masks);
            if (!k.ok()) { Fail("generate", "%s", k.status().ToString().c_str()); return false; }
            it.push_back({id + " first key seed", SeedOf(k->first.dcfkey().key())});
            it.push_back({id + " second key seed", SeedOf(k->second.dcfkey().key())});
            if (k->first.output_mask_share_size() != n || k->second.output_mask_share_size() != n) { Fail("shape", "%d mask shares", k->first.output_mask_share_size()); return false; }
            for (int i = 0; i < n; ++i) {
              auto& a = k->first.output_mask_share(i).value_uint128();
              // Either party's share is the fresh one; the other is determined by it.
              it.push_back({id + F(" mask share of interval %d", i), Word(a.low()) + Word(a.high()), log});
            }
            return true;
          }};
}
// Requests of many queries.
Named LongRequest(int n) {
  return {F("long-request%d", n), [n](Ops& o, Items& it, const std::string& id) {
            dp::PirConfig c;
            c.mutable_dense_dpf_pir_config()->set_num_elements(300);
            auto d = dp::DenseDpfPirClient::Create(c, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string("x"); });
            if (!d.ok()) return false;
            std::vector<int> at;
            for (int i = 0; i < n; ++i) at.push_back(i / 2);
            auto r = (*d)->CreatePlainRequests(at);
            if (!r.ok()) return false;
            auto& [l, h, s] = *r;
            for (int i = 0; i < l.dpf_key_size(); ++i) {
              it.push_back({id + F(" leader key seed %d", i), SeedOf(l.dpf_key(i))});
              it.push_back({id + F(" helper key seed %d", i), SeedOf(h.plain_request().dpf_key(i))});
            }
            it.push_back({id + " pad seed", h.one_time_pad_seed()});
            return true;
          }};
}
// A single generation of many secrets.
void RunSeq(const std::vector<Named>& ops, const std::vector<int>& seq, uint64_t seed);
void RunLong() {
  for (int log : {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 126, 127}) RunSeq({GateOp(log, 2)}, {0}, 40);
  for (int log : {1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 96, 127}) RunSeq({GateOp(log, std::min(260, 2 + 130 / log))}, {0}, 41);
  for (int n : {1, 2, 4, 5, 8, 9, 16, 17, 33}) RunSeq({LongRequest(n)}, {0}, 42);
  if (Thorough())
    for (int log = 1; log < 128; ++log)
      for (int n : {1, 2, 3, 4, 5, 9, 17}) RunSeq({GateOp(log, n)}, {0}, 43);
}
std::vector<Named> AllOps() {
  std::vector<Named> v;
  for (int obj : {0, 1})
    v.push_back({F("dpf%d", obj), [obj](Ops& o, Items& it, const std::string& id) {
                   while ((int)o.dpf.size() <= obj) o.dpf.push_back(std::move(*dp::DistributedPointFunction::Create(Param(9, 64))));
                   return Keys(it, id, o.dpf[obj]->GenerateKeys(o.calls % 2 ? 3 : 500, uint64_t(7)));
                 }});
  v.push_back({"incremental", [](Ops& o, Items& it, const std::string& id) {
                 auto d = dp::DistributedPointFunction::CreateIncremental({Param(2, 32), Param(6, 128), Param(40, 8)});
                 if (!d.ok()) return false;
                 return Keys(it, id, (*d)->GenerateKeysIncremental(12345 + o.calls, {uint32_t(1), absl::uint128(2), uint8_t(3)}));
               }});
  v.push_back({"zero-beta", [](Ops& o, Items& it, const std::string& id) {
                 auto d = dp::DistributedPointFunction::Create(Param(0, 64));
                 if (!d.ok()) return false;
                 return Keys(it, id, (*d)->GenerateKeys(0, uint64_t(0)));
               }});
  v.push_back({"dcf", [](Ops& o, Items& it, const std::string& id) {
                 if (o.dcf.empty()) {
                   dp::DcfParameters p;
                   *p.mutable_parameters() = Param(7, 64);
                   o.dcf.push_back(std::move(*dp::DistributedComparisonFunction::Create(p)));
                 }
                 auto k = o.dcf[0]->GenerateKeys(o.calls, uint64_t(5));
                 if (!k.ok()) { Fail("generate", "%s", k.status().ToString().c_str()); return false; }
                 it.push_back({id + " first key seed", SeedOf(k->first.key())});
                 it.push_back({id + " second key seed", SeedOf(k->second.key())});
                 return true;
               }});
  for (int log : {5, 64, 127}) v.push_back(GateOp(log, 3));
  v.push_back({"pad", [](Ops& o, Items& it, const std::string& id) {
                 auto s = dp::Aes128CtrSeededPrng::GenerateSeed();
                 if (!s.ok()) return false;
                 it.push_back({id + " seed", *s});
                 return true;
               }});
  for (int w : {8, 64, 128})
    v.push_back({F("rand%d", w), [w](Ops& o, Items& it, const std::string& id) {
                   if (!o.rng) o.rng = std::move(*dp::BasicRng::Create(""));
                   std::string s;
                   if (w == 8) s = std::string(1, char(*o.rng->Rand8()));
                   if (w == 64) s = Word(*o.rng->Rand64());
                   if (w == 128) { auto x = *o.rng->Rand128(); s = Word(absl::Uint128Low64(x)) + Word(absl::Uint128High64(x)); }
                   it.push_back({id + " draw", s});
                   return true;
                 }});
  v.push_back({"simple-params", [](Ops& o, Items& it, const std::string& id) {
                 dp::PirConfig c;
                 c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(9);
                 c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
                 auto p = dp::SimpleHashingSparseDpfPirServer::GenerateParams(c);
                 if (!p.ok()) return false;
                 it.push_back({id + " hash seed", p->hash_family_config().seed()});
                 return true;
               }});
  v.push_back({"cuckoo-params", [](Ops& o, Items& it, const std::string& id) {
                 dp::PirConfig c;
                 c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(9);
                 c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
                 auto p = dp::CuckooHashingSparseDpfPirServer::GenerateParams(c);
                 if (!p.ok()) return false;
                 it.push_back({id + " hash seed", p->hash_family_config().seed()});
                 return true;
               }});
  auto both = [](Items& it, const std::string& id, const std::tuple<PlainRequest, HelperRequest, dp::PirRequestClientState>& r) {
    auto& [l, h, s] = r;
    for (int i = 0; i < l.dpf_key_size(); ++i) {
      it.push_back({id + F(" leader key seed %d", i), SeedOf(l.dpf_key(i))});
      it.push_back({id + F(" helper key seed %d", i), SeedOf(h.plain_request().dpf_key(i))});
    }
    it.push_back({id + " pad seed", h.one_time_pad_seed()});
    return true;
  };
  v.push_back({"dense-request", [both](Ops& o, Items& it, const std::string& id) {
                 if (o.dense.empty()) {
                   dp::PirConfig c;
                   c.mutable_dense_dpf_pir_config()->set_num_elements(300);
                   o.dense.push_back(std::move(*dp::DenseDpfPirClient::Create(c, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string("x"); })));
                 }
                 auto r = o.dense[0]->CreatePlainRequests({5, 5, 200});
                 return r.ok() && both(it, id, *r);
               }});
  v.push_back({"simple-request", [both](Ops& o, Items& it, const std::string& id) {
                 if (o.simple.empty()) {
                   dp::PirServerPublicParams p;
                   auto* q = p.mutable_simple_hashing_sparse_dpf_pir_server_params();
                   q->set_num_buckets(200);
                   q->mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
                   q->mutable_hash_family_config()->set_seed("s");
                   o.simple.push_back(std::move(*dp::SimpleHashingSparseDpfPirClient::Create(p, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string("x"); })));
                 }
                 std::vector<std::string> q = {"same", "same"};
                 auto r = o.simple[0]->CreatePlainRequests(q);
                 return r.ok() && both(it, id, *r);
               }});
  v.push_back({"cuckoo-request", [both](Ops& o, Items& it, const std::string& id) {
                 if (o.cuckoo.empty()) {
                   dp::PirServerPublicParams p;
                   auto* q = p.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
                   q->set_num_buckets(200);
                   q->set_num_hash_functions(2);
                   q->mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
                   q->mutable_hash_family_config()->set_seed("s");
                   o.cuckoo.push_back(std::move(*dp::CuckooHashingSparseDpfPirClient::Create(p, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return std::string("x"); })));
                 }
                 std::vector<std::string> q = {"one"};
                 auto r = o.cuckoo[0]->CreatePlainRequests(q);
                 return r.ok() && both(it, id, *r);
               }});
  return v;
}
void RunSeq(const std::vector<Named>& ops, const std::vector<int>& seq, uint64_t seed) {
  std::string name;
  for (int i : seq) name += "-" + ops[i].name;
  if (!Case("fresh" + name + F("/s%d", (int)seed))) return;
  auto scenario = [&] {
    Ops o;
    Items it;
    for (size_t k = 0; k < seq.size(); ++k) {
      o.calls = k;
      if (!ops[seq[k]].op(o, it, F("%s (call %zu)", ops[seq[k]].name.c_str(), k))) {
        Fail("failed", "%s", name.c_str());
        return Items();
      }
    }
    return it;
  };
  auto f = AnalyseFlow(scenario, Mix(seed) ^ Hash(name), "after" + name);
  for (size_t a = 0; a < f.size(); ++a) {
    CheckFull(f[a], "sequence" + name);
    for (size_t b = 0; b < a; ++b) CheckApart(f[a], f[b], "sequence" + name);
  }
  Sample("sequence" + name);
}
}  // namespace
void VpRun() {
  const auto ops = AllOps();
  const int n = ops.size();
  for (int s = 0; s < Pick(2, 8); ++s)
    for (int a = 0; a < n; ++a) {
      RunSeq(ops, {a, a, a}, s);
      for (int b = 0; b < n; ++b)
        if (s < 1 || Thorough()) RunSeq(ops, {a, b}, s);
    }
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      if (a != b) RunSeq(ops, {a, b, a}, 20);
      if (Thorough())
        for (int c = 0; c < n; ++c) RunSeq(ops, {a, b, c}, 21);
    }
  RunLong();
  // A long run on one object.
  for (int a = 0; a < n; ++a) RunSeq(ops, std::vector<int>(Pick(8, 20), a), 30);
}
