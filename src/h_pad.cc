// P22: masking of the helper's answers, and separation of the two servers' views.
#include <functional>

#include "absl/types/optional.h"
#include "flow.h"
#include "pir_common.h"
using namespace vp;

namespace {
using Strings = std::vector<std::string>;
using Answer = std::vector<absl::optional<std::string>>;
using ClientState = dp::PirRequestClientState;
using Plains = std::tuple<PlainRequest, HelperRequest, ClientState>;
using Full = std::pair<dp::PirRequest, ClientState>;
enum Kind { kDense, kSimple, kCuckoo, kKinds };
const char* kNames[] = {"dense", "simple", "cuckoo"};
constexpr int kRows = 140;

std::string PadOf(const ClientState& s) {
  if (s.has_dense_dpf_pir_request_client_state()) return s.dense_dpf_pir_request_client_state().one_time_pad_seed();
  if (s.has_simple_hashing_sparse_dpf_pir_request_client_state()) return s.simple_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed();
  if (s.has_cuckoo_hashing_sparse_dpf_pir_request_client_state()) return s.cuckoo_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed();
  return "no state";
}
std::string KeyName(int i) { return F("key%d", i * 37); }
std::string Row(int i, int len) {
  std::string s;
  for (int k = 0; k < len; ++k) s += char(Mix(i * 1009 + k) >> 13);
  if (i % 3 == 2 && len > 1) s.pop_back();
  return s;
}

// Everything needed to run one kind of retrieval.
struct Rig : System {
  int kind, len;
  std::unique_ptr<dp::DenseDpfPirClient> dense;
  std::unique_ptr<dp::SimpleHashingSparseDpfPirClient> simple;
  std::unique_ptr<dp::CuckooHashingSparseDpfPirClient> cuckoo;
  int per_query = 1;
  // What the stand-in encryption saw.
  int encryptions = 0;
  std::string plaintext, context, handle;
  bool fail_encryption = false;
  auto Encrypter() {
    return [this](absl::string_view p, absl::string_view c) -> absl::StatusOr<std::string> {
      ++encryptions;
      plaintext = std::string(p);
      context = std::string(c);
      if (fail_encryption) return absl::UnavailableError("encrypter");
      return handle = sealer.Seal(p, c);
    };
  }
  // `ctx`: context of the client; null: the default one.
  bool Make(int k, int l, const std::string* ctx = nullptr, bool servers = true) {
    kind = k, len = l;
    if (kind == kDense) {
      dp::PirConfig c;
      c.mutable_dense_dpf_pir_config()->set_num_elements(kRows);
      auto cl = ctx ? dp::DenseDpfPirClient::Create(c, Encrypter(), std::string(*ctx)) : dp::DenseDpfPirClient::Create(c, Encrypter());
      if (!cl.ok()) { Fail("create", "client: %s", cl.status().ToString().c_str()); return false; }
      dense = std::move(*cl);
      auto db = [&] {
        dp::DenseDpfPirDatabase::Builder b;
        for (int i = 0; i < kRows; ++i) b.Insert(Row(i, len));
        return std::move(*b.Build());
      };
      using S = dp::DenseDpfPirServer;
      return !servers || Servers(S::CreatePlain(c, db()), S::CreateHelper(c, db(), sealer.Decrypter()), S::CreateLeader(c, db(), Sender()));
    }
    const std::string seed = "hash seed";
    if (kind == kSimple) {
      dp::SimpleHashingParams p;
      p.set_num_buckets(130);
      p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
      p.mutable_hash_family_config()->set_seed(seed);
      dp::PirServerPublicParams pp;
      *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = p;
      auto cl = ctx ? dp::SimpleHashingSparseDpfPirClient::Create(pp, Encrypter(), std::string(*ctx)) : dp::SimpleHashingSparseDpfPirClient::Create(pp, Encrypter());
      if (!cl.ok()) { Fail("create", "client: %s", cl.status().ToString().c_str()); return false; }
      simple = std::move(*cl);
      auto db = [&] {
        dp::SimpleHashedDpfPirDatabase::Builder b;
        b.SetParams(p);
        for (int i = 0; i < 40; ++i) b.Insert({KeyName(i), Row(i, len)});
        return std::move(*b.Build());
      };
      using S = dp::SimpleHashingSparseDpfPirServer;
      return !servers || Servers(S::CreatePlain(p, db()), S::CreateHelper(p, db(), sealer.Decrypter()), S::CreateLeader(p, db(), Sender()));
    }
    dp::CuckooHashingParams p;
    p.set_num_buckets(130);
    p.set_num_hash_functions(per_query = 3);
    p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
    p.mutable_hash_family_config()->set_seed(seed);
    dp::PirServerPublicParams pp;
    *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = p;
    auto cl = ctx ? dp::CuckooHashingSparseDpfPirClient::Create(pp, Encrypter(), std::string(*ctx)) : dp::CuckooHashingSparseDpfPirClient::Create(pp, Encrypter());
    if (!cl.ok()) { Fail("create", "client: %s", cl.status().ToString().c_str()); return false; }
    cuckoo = std::move(*cl);
    auto db = [&] {
      dp::CuckooHashedDpfPirDatabase::Builder b;
      b.SetParams(p);
      for (int i = 0; i < 20; ++i) b.Insert({KeyName(i), Row(i, len)});
      return std::move(*b.Build());
    };
    using S = dp::CuckooHashingSparseDpfPirServer;
    return !servers || Servers(S::CreatePlain(p, db()), S::CreateHelper(p, db(), sealer.Decrypter()), S::CreateLeader(p, db(), Sender()));
  }
  template <typename A>
  bool Servers(A a, A h, A l) {
    if (!a.ok() || !h.ok() || !l.ok()) { Fail("create", "%s server", kNames[kind]); return false; }
    plain = std::move(*a), helper = std::move(*h), leader = std::move(*l);
    return true;
  }
  std::vector<int> Indices(int n, int salt) const {
    std::vector<int> q;
    for (int i = 0; i < n; ++i) q.push_back((salt * 53 + i * 71 + 127) % kRows);
    return q;
  }
  Strings Keys(int n, int salt) const {
    Strings q;
    for (int i = 0; i < n; ++i) q.push_back(KeyName((salt * 5 + i * 7) % 25));  // some not stored
    return q;
  }
  absl::StatusOr<Plains> Plain(int n, int salt) const {
    if (kind == kDense) return dense->CreatePlainRequests(Indices(n, salt));
    return kind == kSimple ? simple->CreatePlainRequests(Keys(n, salt)) : cuckoo->CreatePlainRequests(Keys(n, salt));
  }
  absl::StatusOr<Full> Request(int n, int salt) const {
    if (kind == kDense) return dense->CreateRequest(Indices(n, salt));
    return kind == kSimple ? simple->CreateRequest(Keys(n, salt)) : cuckoo->CreateRequest(Keys(n, salt));
  }
  absl::StatusOr<Answer> Handle(const dp::PirResponse& r, const ClientState& s) const {
    if (kind != kDense) return kind == kSimple ? simple->HandleResponse(r, s) : cuckoo->HandleResponse(r, s);
    auto a = dense->HandleResponse(r, s);
    if (!a.ok()) return a.status();
    Answer v;
    for (auto& x : *a) v.push_back(x);
    return v;
  }
  Answer Want(int n, int salt) const {
    Answer v;
    for (int i = 0; i < n; ++i) {
      if (kind == kDense) {
        std::string s = Row(Indices(n, salt)[i], len);
        s.resize(len);
        v.push_back(s);
        continue;
      }
      int k = (salt * 5 + i * 7) % 25;
      if (k >= (kind == kSimple ? 40 : 20)) { v.push_back(absl::nullopt); continue; }
      std::string s = Row(k, len);
      if (kind == kCuckoo) s.resize(len);
      v.push_back(s);
    }
    return v;
  }
};
std::string Varint(uint64_t v) {
  std::string r;
  for (; v >= 128; v >>= 7) r += char(v | 128);
  return r + char(v);
}
std::string Swapped(std::string s) { return std::string(s.rbegin(), s.rend()); }
bool Contains(const std::string& hay, const std::string& needle) { return needle.size() >= 4 && hay.find(needle) != std::string::npos; }
// Whether a serialized message holds part of a secret seed.
bool Leaks(const std::string& hay, const std::string& seed16) {
  uint64_t w[2];
  memcpy(w, seed16.data(), 16);
  for (int i = 0; i < 2; ++i) {
    std::string b = Word(w[i]);
    if (Contains(hay, b) || Contains(hay, Swapped(b)) || (w[i] >> 40 && Contains(hay, Varint(w[i])))) return true;
  }
  return false;
}
std::string SeedOf(const dp::DpfKey& k) { return Word(k.seed().low()) + Word(k.seed().high()); }

// One request on a client in any state: what each party sees, and the masking.
void OneRequest(Rig& s, int n, int salt, const std::string& ctx, const std::string& what) {
  s.encryptions = 0;
  auto full = s.Request(n, salt);
  Trace();
  if (!full.ok()) { Fail("request", "%s: %s", what.c_str(), full.status().ToString().c_str()); return; }
  const dp::PirRequest& req = full->first;
  if (s.encryptions != 1) Fail("encryptions", "%s: %d encryptions", what.c_str(), s.encryptions);
  if (s.context != ctx) Fail("context", "%s: context %s", what.c_str(), Printable(s.context).c_str());
  HelperRequest inner;
  if (!inner.ParseFromString(s.plaintext)) { Fail("plaintext", "%s: not a helper request", what.c_str()); return; }
  if (inner.one_time_pad_seed().size() != 16) Fail("seed-size", "%s: %zu", what.c_str(), inner.one_time_pad_seed().size());
  const std::string pad = PadOf(full->second);
  if (pad != inner.one_time_pad_seed()) Fail("state-seed", "%s: client and helper hold different pad seeds", what.c_str());
  if (inner.plain_request().dpf_key_size() != n * s.per_query) Fail("helper-keys", "%s: %d keys", what.c_str(), inner.plain_request().dpf_key_size());
  // The leader's view holds the ciphertext and its own keys, nothing else.
  dp::PirRequest clean;
  auto* lr = clean.mutable_dpf_pir_request()->mutable_leader_request();
  const auto& seen = req.dpf_pir_request().leader_request();
  lr->mutable_encrypted_helper_request()->set_encrypted_request(s.handle);
  lr->mutable_plain_request()->set_seed_fingerprint(seen.plain_request().seed_fingerprint());
  for (auto& k : seen.plain_request().dpf_key()) {
    auto* c = lr->mutable_plain_request()->add_dpf_key();
    *c->mutable_seed() = k.seed();
    *c->mutable_correction_words() = k.correction_words();
    c->set_party(k.party());
    *c->mutable_last_level_value_correction() = k.last_level_value_correction();
  }
  if (clean.SerializeAsString() != req.SerializeAsString()) Fail("leader-view", "%s: the request holds more than the leader's keys and the ciphertext", what.c_str());
  if (seen.plain_request().dpf_key_size() != n * s.per_query) { Fail("leader-keys", "%s: %d keys", what.c_str(), seen.plain_request().dpf_key_size()); return; }
  const std::string wire = req.SerializeAsString();
  if (Leaks(wire, pad)) Fail("leader-sees-pad", "%s", what.c_str());
  for (auto& k : inner.plain_request().dpf_key())
    if (Leaks(wire, SeedOf(k))) Fail("leader-sees-key", "%s: root seed of the helper's key", what.c_str());
  for (int i = 0; i < seen.plain_request().dpf_key_size() && i < inner.plain_request().dpf_key_size(); ++i) {
    if (Leaks(s.plaintext, SeedOf(seen.plain_request().dpf_key(i)))) Fail("helper-sees-key", "%s: root seed of the leader's key", what.c_str());
    if (seen.plain_request().dpf_key(i).party() == inner.plain_request().dpf_key(i).party()) Fail("same-party", "%s: key %d", what.c_str(), i);
  }
  // The helper's answer: the true answer under the keystream, nothing else.
  dp::PirRequest to_helper;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = seen.encrypted_helper_request();
  auto h = s.helper->HandleRequest(to_helper);
  auto p = s.plain->HandleRequest(PlainOf(inner.plain_request()));
  Trans(2);
  if (!h.ok() || !p.ok()) { Fail("helper", "%s: %s", what.c_str(), (h.ok() ? p : h).status().ToString().c_str()); return; }
  size_t total = 0;
  for (auto& x : Parts(*p)) total += x.size();
  const std::string ks = Keystream(pad, total);
  dp::PirResponse want;
  size_t at = 0;
  for (auto& x : Parts(*p)) {
    want.mutable_dpf_pir_response()->add_masked_response(Xor(x, ks.substr(at, x.size())));
    at += x.size();
  }
  State(Hash(ks));
  if (h->SerializeAsString() != want.SerializeAsString()) {
    auto a = Parts(*h), b = Parts(want);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
      if (a[i] != b[i]) Fail("mask", "%s: response %zu is not the true response under its part of the keystream", what.c_str(), i);
    Fail("helper-answer", "%s: helper's response differs", what.c_str());
  }
  // The whole protocol removes the pad.
  auto l = s.leader->HandleRequest(req);
  Trans(2);
  if (!l.ok()) { Fail("leader", "%s: %s", what.c_str(), l.status().ToString().c_str()); return; }
  if (s.from_helper.empty() || s.from_helper.back().SerializeAsString() != want.SerializeAsString()) Fail("forwarded", "%s: helper answered the leader differently", what.c_str());
  auto a = s.Handle(*l, full->second);
  if (!a.ok()) Fail("unmask", "%s: %s", what.c_str(), a.status().ToString().c_str());
  else if (*a != s.Want(n, salt)) Fail("unmask", "%s: wrong records", what.c_str());
}
const std::string& DefaultContext(int kind) {
  static const std::string c[] = {std::string(dp::DenseDpfPirServer::kEncryptionContextInfo), std::string(dp::SimpleHashingSparseDpfPirServer::kEncryptionContextInfo),
                                  std::string(dp::CuckooHashingSparseDpfPirServer::kEncryptionContextInfo)};
  return c[kind];
}
// All sequences of requests on one client, by number of queries.
void RunMask() {
  std::vector<int> lens = {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 40, 64, 100};
  for (int l : {255, 256, 257, 1000, 4096, 65537}) lens.push_back(l);
  if (Thorough()) for (int l = 3; l < 80; ++l) lens.push_back(l);
  const int depth = Pick(2, 3);
  const std::vector<int> counts = Thorough() ? std::vector<int>{1, 2, 3, 5, 9} : std::vector<int>{1, 2, 3, 5};
  for (int kind = 0; kind < kKinds; ++kind)
    for (int len : lens) {
      if (!Case(F("mask/%s/len%d", kNames[kind], len))) continue;
      R().Reset(len * 3 + kind);
      Rig s;
      if (!s.Make(kind, len)) continue;
      std::vector<std::vector<int>> seqs = {{}};
      for (int d = 0; d < (len > 300 ? 1 : depth); ++d) {
        std::vector<std::vector<int>> next;
        for (auto& q : seqs)
          for (int c : counts) { auto x = q; x.push_back(c); next.push_back(x); }
        seqs.swap(next);
      }
      int salt = 0;
      for (auto& q : seqs)
        for (int c : q) {
          ++salt;
          s.order ^= 1;
          s.from_helper.clear(), s.to_helper.clear();
          OneRequest(s, c, salt, DefaultContext(kind), F("%s, records of %d bytes, %d queries", kNames[kind], len, c));
          s.sealer.table.clear();
        }
      // Many queries, many keystream blocks.
      for (int c : {16, 33, Pick(64, 200)}) OneRequest(s, c, ++salt, DefaultContext(kind), F("%s, records of %d bytes, %d queries", kNames[kind], len, c));
      Sample(F("%s, records of %d bytes: %zu request sequences", kNames[kind], len, seqs.size()));
    }
  // Contexts of the caller's choice, and refusals in the middle of a history.
  for (int kind = 0; kind < kKinds; ++kind)
    for (int c = 0; c < 6; ++c) {
      if (!Case(F("context/%s/%d", kNames[kind], c))) continue;
      R().Reset(c + kind * 10);
      const std::string ctx = c == 0 ? "" : c == 1 ? "x" : c == 2 ? std::string("\0a\0", 3) : c == 3 ? std::string(1000, 'q') : c == 4 ? DefaultContext(kind) : DefaultContext((kind + 1) % kKinds);
      Rig s;
      if (!s.Make(kind, 5, &ctx)) continue;
      for (int n : {1, 2}) {
        s.encryptions = 0;
        s.fail_encryption = true;
        auto bad = s.Request(n, n);
        if (bad.ok()) Fail("encrypter-error", "%s: request made although encryption failed", kNames[kind]);
        s.fail_encryption = false;
        s.encryptions = 0;
        auto r = s.Request(n, n);
        Trace();
        if (!r.ok()) { Fail("request", "%s", r.status().ToString().c_str()); continue; }
        if (s.encryptions != 1 || s.context != ctx) Fail("context", "%s: context %s instead of %s", kNames[kind], Printable(s.context).c_str(), Printable(ctx).c_str());
        if (r->first.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request() != s.handle) Fail("ciphertext", "%s", kNames[kind]);
        auto l = s.leader->HandleRequest(r->first);
        Trans();
        if (l.ok() != (ctx == DefaultContext(kind))) Fail("context-mismatch", "%s: client context %s %s", kNames[kind], Printable(ctx).c_str(), l.ok() ? "accepted" : "refused");
      }
      State(Hash(ctx));
    }
}
// The client removes exactly the keystream, whatever the shape of the response.
void RunUnmask() {
  const int sizes[] = {0, 1, 15, 16, 17, 40};
  std::vector<std::vector<int>> lists = {};
  for (int a : sizes) {
    lists.push_back({a});
    for (int b : sizes) {
      lists.push_back({a, b});
      for (int c : sizes) {
        lists.push_back({a, b, c});
        if (Thorough()) for (int d : sizes) lists.push_back({a, b, c, d});
      }
    }
  }
  for (int l = 0; l < 700; l += Pick(7, 1)) lists.push_back({l, 3, l});
  lists.push_back({1 << 20, 3});
  lists.push_back(std::vector<int>(300, 5));
  for (size_t i = 0; i < lists.size(); ++i) {
    std::string name;
    for (size_t k = 0; k < lists[i].size() && k < 6; ++k) name += F("-%d", lists[i][k]);
    if (!Case("unmask" + name)) continue;
    R().Reset(i);
    Rig s;
    if (!s.Make(kDense, 3, nullptr, false)) continue;
    for (int round = 0; round < 2; ++round) {
      auto p = s.Plain(1, i);
      if (!p.ok()) { Fail("request", "%s", p.status().ToString().c_str()); break; }
      const std::string pad = std::get<1>(*p).one_time_pad_seed();
      size_t total = 0, at = 0;
      for (int l : lists[i]) total += l;
      const std::string ks = Keystream(pad, total);
      dp::PirResponse r;
      for (int l : lists[i]) {
        std::string x;
        for (int k = 0; k < l; ++k) x += char(Mix(i * 31 + k + at) >> 3);
        r.mutable_dpf_pir_response()->add_masked_response(x);
        at += l;
      }
      auto a = s.Handle(r, std::get<2>(*p));
      Trace();
      if (!a.ok()) { Fail("unmask-status", "%s", a.status().ToString().c_str()); break; }
      at = 0;
      if (a->size() != lists[i].size()) { Fail("unmask-count", "%zu", a->size()); break; }
      for (size_t k = 0; k < a->size(); ++k) {
        if (*(*a)[k] != Xor(Parts(r)[k], ks.substr(at, lists[i][k]))) Fail("unmask-bytes", "response %zu of sizes%s", k, name.c_str());
        at += lists[i][k];
      }
      State(Hash(ks.substr(0, 64)));
    }
  }
}
// Dependence of what each party sees on each bit of the random source.
void RunFlow() {
  for (int kind = 0; kind < kKinds; ++kind)
    for (int n : {1, 2, 3})
      for (int form = 0; form < 2; ++form)
        for (int seed = 0; seed < Pick(1, 3); ++seed) {
          if (kind == kCuckoo && n == 3 && !Thorough()) continue;
          if (!Case(F("flow/%s/q%d/%s/s%d", kNames[kind], n, form ? "full" : "plain", seed))) continue;
          const std::string what = F("3 requests of %d queries on one %s client", n, kNames[kind]);
          auto scenario = [&] {
            std::vector<FlowItem> items;
            Rig s;
            if (!s.Make(kind, 5, nullptr, false)) return items;
            for (int r = 0; r < 3; ++r) {
              PlainRequest lr;
              HelperRequest hr;
              ClientState st;
              std::string visible;
              if (form) {
                auto f = s.Request(n, r);
                if (!f.ok() || !hr.ParseFromString(s.plaintext)) { Fail("request", "%s", what.c_str()); return std::vector<FlowItem>(); }
                visible = f->first.SerializeAsString();
                st = f->second;
              } else {
                auto p = s.Plain(n, r);
                if (!p.ok()) { Fail("request", "%s", what.c_str()); return std::vector<FlowItem>(); }
                visible = std::get<0>(*p).SerializeAsString();
                hr = std::get<1>(*p);
                st = std::get<2>(*p);
              }
              std::string keys;
              for (auto& k : hr.plain_request().dpf_key()) keys += SeedOf(k);
              items.push_back({F("pad seed %d", r), PadOf(st)});
              items.push_back({F("pad seed %d at the helper", r), hr.one_time_pad_seed()});
              items.push_back({F("what the leader sees of request %d", r), visible});
              items.push_back({F("helper key seeds of request %d", r), keys});
            }
            return items;
          };
          auto f = AnalyseFlow(scenario, kind * 100 + n * 10 + seed, what);
          for (size_t a = 0; a < f.size(); a += 4) {
            CheckFull(f[a], what);
            CheckFull(f[a + 1], what);
            for (size_t b = 0; b < f.size(); ++b)
              if (b != a && b != a + 1) CheckApart(f[a], f[b], what), CheckApart(f[a + 1], f[b], what);
          }
          Sample(what);
        }
}
}  // namespace
void VpRun() {
  if (Mode("mask")) RunMask(), RunUnmask();
  if (Mode("flow")) RunFlow();
}
