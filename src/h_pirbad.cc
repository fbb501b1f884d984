// P29: malformed retrieval configurations, requests, states and responses.
#include <optional>

#include "dpf/distributed_point_function.h"
#include "mutate.h"
#include "pir_common.h"
#include "wellformed.h"
using namespace vp;

namespace {
using Strings = std::vector<std::string>;
using Results = std::vector<absl::optional<std::string>>;
enum Kind { kDense, kSimple, kCuckoo, kKinds };
const char* kNames[] = {"dense", "simple", "cuckoo"};
using DS = dp::DenseDpfPirServer;
using SS = dp::SimpleHashingSparseDpfPirServer;
using CS = dp::CuckooHashingSparseDpfPirServer;
using HelperReq = HelperRequest;

std::string KeyName(int i) { return i % 7 == 3 ? F("k%d-%s", i, std::string(i % 23, 'q').c_str()) : F("k%d", i); }
std::string RowData(int i) {
  std::string s;
  for (int k = 0; k < (i * 7 + 3) % 29 + (i == 0); ++k) s += char(Mix(i * 1009 + k) >> 9);
  return s;
}
const std::string kSeed = "a hash seed 1234";

// What a database holds, column by column (rows padded to equal length).
struct Rows {
  std::vector<Strings> col;
};
Strings AsParts(const std::string& s) { return {s}; }
Strings AsParts(const std::pair<std::string, std::string>& p) { return {p.first, p.second}; }
template <typename Db>
Rows Learn(const Db& db, int n) {
  Rows r;
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<dp::XorWrapper<u128>>> sel(1);
    for (int b = 0; b <= (n - 1) / 128; ++b) sel[0].push_back(dp::XorWrapper<u128>(b == i / 128 ? u128{1} << (i % 128) : u128{0}));
    auto a = db.InnerProductWith(sel);
    if (!a.ok() || a->size() != 1) { Fail("learn", "row %d", i); return r; }
    Strings p = AsParts((*a)[0]);
    r.col.resize(p.size());
    for (size_t c = 0; c < p.size(); ++c) r.col[c].push_back(p[c]);
  }
  return r;
}

struct Sys : System {
  Kind kind;
  int n = 0;
  int salt = 0;
  std::unique_ptr<dp::DenseDpfPirClient> dense;
  std::unique_ptr<dp::SimpleHashingSparseDpfPirClient> simple;
  std::unique_ptr<dp::CuckooHashingSparseDpfPirClient> cuckoo;
  Rows plain_rows, helper_rows, leader_rows;
  uint32_t fingerprint = 0;
  std::string seed = kSeed;
  int k = 3;
  std::unique_ptr<Hier> hier;
  std::unique_ptr<RefDpf> ref;

  dp::HashFamilyConfig Family() const {
    dp::HashFamilyConfig c;
    c.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
    c.set_seed(seed);
    return c;
  }
  dp::PirConfig DenseConfig() const {
    dp::PirConfig c;
    c.mutable_dense_dpf_pir_config()->set_num_elements(n);
    return c;
  }
  dp::SimpleHashingParams SimpleParams() const {
    dp::SimpleHashingParams p;
    p.set_num_buckets(n);
    *p.mutable_hash_family_config() = Family();
    return p;
  }
  dp::CuckooHashingParams CuckooParams() const {
    dp::CuckooHashingParams p;
    p.set_num_buckets(n);
    p.set_num_hash_functions(k);
    *p.mutable_hash_family_config() = Family();
    return p;
  }
  std::unique_ptr<DS::Database> DenseDb() const {
    dp::DenseDpfPirDatabase::Builder b;
    for (int i = 0; i < n; ++i) b.Insert(RowData(i + salt));
    return std::move(*b.Build());
  }
  std::unique_ptr<SS::Database> SimpleDb() const {
    dp::SimpleHashedDpfPirDatabase::Builder b;
    b.SetParams(SimpleParams());
    for (int i = 0; i < std::max(1, n * 2 / 3); ++i) b.Insert({KeyName(i), RowData(i + salt)});
    return std::move(*b.Build());
  }
  std::unique_ptr<CS::Database> CuckooDb() const {
    dp::CuckooHashedDpfPirDatabase::Builder b;
    b.SetParams(CuckooParams());
    for (int i = 0; i < std::max(1, n / 3); ++i) b.Insert({KeyName(i), RowData(i + salt)});
    return std::move(*b.Build());
  }
  bool Make(Kind kd, int size, const std::string& hash_seed = kSeed) {
    kind = kd, n = size, seed = hash_seed;
    int d = 0;
    while ((int64_t{1} << d) < n) ++d;
    static const TypeOps* ops = new TypeOps(MakeOps<dp::XorWrapper<u128>>());
    hier = std::make_unique<Hier>();
    hier->d = {d};
    hier->t = {ops};
    ref = std::make_unique<RefDpf>(hier->d, hier->t);
    dp::PirServerPublicParams pp;
    if (kind == kDense) {
      auto c = dp::DenseDpfPirClient::Create(DenseConfig(), sealer.Encrypter());
      auto a = DenseDb(), b = DenseDb(), l = DenseDb();
      plain_rows = Learn(*a, n), helper_rows = Learn(*b, n), leader_rows = Learn(*l, n);
      if (!c.ok()) { Fail("create", "%s", c.status().ToString().c_str()); return false; }
      dense = std::move(*c);
      return Servers(DS::CreatePlain(DenseConfig(), std::move(a)), DS::CreateHelper(DenseConfig(), std::move(b), sealer.Decrypter()), DS::CreateLeader(DenseConfig(), std::move(l), Sender()));
    }
    if (kind == kSimple) {
      *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = SimpleParams();
      auto c = dp::SimpleHashingSparseDpfPirClient::Create(pp, sealer.Encrypter());
      auto a = SimpleDb(), b = SimpleDb(), l = SimpleDb();
      plain_rows = Learn(*a, n), helper_rows = Learn(*b, n), leader_rows = Learn(*l, n);
      if (!c.ok()) { Fail("create", "%s", c.status().ToString().c_str()); return false; }
      simple = std::move(*c);
      return Servers(SS::CreatePlain(SimpleParams(), std::move(a)), SS::CreateHelper(SimpleParams(), std::move(b), sealer.Decrypter()), SS::CreateLeader(SimpleParams(), std::move(l), Sender()));
    }
    *pp.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = CuckooParams();
    auto c = dp::CuckooHashingSparseDpfPirClient::Create(pp, sealer.Encrypter());
    auto a = CuckooDb(), b = CuckooDb(), l = CuckooDb();
    plain_rows = Learn(*a, n), helper_rows = Learn(*b, n), leader_rows = Learn(*l, n);
    if (!c.ok()) { Fail("create", "%s", c.status().ToString().c_str()); return false; }
    cuckoo = std::move(*c);
    return Servers(CS::CreatePlain(CuckooParams(), std::move(a)), CS::CreateHelper(CuckooParams(), std::move(b), sealer.Decrypter()), CS::CreateLeader(CuckooParams(), std::move(l), Sender()));
  }
  template <typename A>
  bool Servers(A a, A h, A l) {
    if (!a.ok() || !h.ok() || !l.ok()) { Fail("create", "%s server", kNames[kind]); return false; }
    plain = std::move(*a), helper = std::move(*h), leader = std::move(*l);
    auto r = Plain(1);
    if (!r.ok()) { Fail("create", "%s", r.status().ToString().c_str()); return false; }
    fingerprint = std::get<0>(*r).seed_fingerprint();
    return true;
  }
  int per_query() const { return kind == kCuckoo ? k : 1; }
  Strings Keys(int q) const {
    Strings s;
    for (int i = 0; i < q; ++i) s.push_back(KeyName(i));
    return s;
  }
  std::vector<int> Indices(int q) const {
    std::vector<int> v;
    for (int i = 0; i < q; ++i) v.push_back((i * 7 + n - 1) % n);
    return v;
  }
  auto Plain(int q) const -> decltype(dense->CreatePlainRequests(std::vector<int>())) {
    if (kind == kDense) return dense->CreatePlainRequests(Indices(q));
    return kind == kSimple ? simple->CreatePlainRequests(Keys(q)) : cuckoo->CreatePlainRequests(Keys(q));
  }
  auto Request(int q) const -> decltype(dense->CreateRequest(std::vector<int>())) {
    if (kind == kDense) return dense->CreateRequest(Indices(q));
    return kind == kSimple ? simple->CreateRequest(Keys(q)) : cuckoo->CreateRequest(Keys(q));
  }
  absl::StatusOr<Results> Handle(const dp::PirResponse& r, const dp::PirRequestClientState& s) const {
    if (kind == kSimple) return simple->HandleResponse(r, s);
    if (kind == kCuckoo) return cuckoo->HandleResponse(r, s);
    auto a = dense->HandleResponse(r, s);
    if (!a.ok()) return a.status();
    return Results(a->begin(), a->end());
  }

  // The answer the definition demands; none: the request must be refused.
  std::optional<Strings> Expect(const PlainRequest& p, const Rows& rows) const {
    if (p.dpf_key_size() == 0) return std::nullopt;
    if (kind != kDense && p.seed_fingerprint() != 0 && p.seed_fingerprint() != fingerprint) return std::nullopt;
    Strings out;
    for (auto& key : p.dpf_key()) {
      KeyInfo info = Classify(*hier, *ref, key);
      if (!info.ok || !info.level_ok[0]) return std::nullopt;
      std::vector<u128> blocks;
      for (int b = 0; b <= (n - 1) / 128; ++b) blocks.push_back(WalkFrom(*ref, info, info.ref.seed[info.party], info.party, 0, 0, b)[0]);
      for (auto& col : rows.col) {
        std::string s(col[0].size(), '\0');
        for (int i = 0; i < n; ++i)
          if (static_cast<uint64_t>(blocks[i / 128] >> (i % 128)) & 1) s = Xor(s, col[i]);
        out.push_back(s);
      }
    }
    return out;
  }
  std::optional<Strings> ExpectHelper(const HelperReq& h) const {
    if (h.one_time_pad_seed().size() != 16) return std::nullopt;
    auto e = Expect(h.plain_request(), helper_rows);
    if (!e) return e;
    size_t total = 0;
    for (auto& s : *e) total += s.size();
    std::string ks = Keystream(h.one_time_pad_seed(), total);
    size_t at = 0;
    for (auto& s : *e) {
      std::string cut = ks.substr(at, s.size());
      at += s.size();
      s = Xor(s, cut);
    }
    return e;
  }
};

void Judge(const char* sig, const std::string& what, const std::optional<Strings>& want, const absl::StatusOr<dp::PirResponse>& got) {
  Trans();
  if (!want) {
    if (got.ok()) Fail(F("%s-accepted", sig), "%s: answered with OK", what.c_str());
    return;
  }
  Trace();
  if (!got.ok()) { Fail(F("%s-refused", sig), "%s: %s", what.c_str(), got.status().ToString().c_str()); return; }
  Strings p = Parts(*got);
  if (p != *want) Fail(F("%s-wrong", sig), "%s: wrong response (%zu parts, %zu expected)", what.c_str(), p.size(), want->size());
  for (auto& s : p) State(Hash(s));
}
dp::PirRequest Encrypted(const std::string& handle) {
  dp::PirRequest r;
  r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(handle);
  return r;
}
std::string Context(Kind k) {
  return std::string(k == kDense ? DS::kEncryptionContextInfo : k == kSimple ? SS::kEncryptionContextInfo : CS::kEncryptionContextInfo);
}
template <typename M>
M Applied(const M& m, const Mutation& a) {
  M r = m;
  a.apply(&r);
  return r;
}

// ---------------------------------------------------------------- requests
struct Requests {
  Sys& s;
  std::string name;
  PlainRequest lp;
  HelperReq hp;
  dp::PirRequest full;
  std::string handle;
  std::optional<Strings> plain_ok, helper_ok;

  explicit Requests(Sys& sys, int q, const std::string& nm) : s(sys), name(nm) {
    auto r = s.Plain(q);
    auto f = s.Request(q);
    if (!r.ok() || !f.ok()) { Fail("create", "%s", name.c_str()); return; }
    lp = std::get<0>(*r), hp = std::get<1>(*r);
    full = f->first;
    handle = full.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request();
  }
  bool Base() {
    plain_ok = s.Expect(lp, s.plain_rows);
    helper_ok = s.ExpectHelper(hp);
    if (!plain_ok || !helper_ok) { Fail("base", "%s: reference refuses a genuine request", name.c_str()); return false; }
    GoodPlain();
    GoodHelper();
    LeaderCall(full, "base");
    return true;
  }
  void GoodPlain() { Judge("after", name + " plain", plain_ok, s.plain->HandleRequest(PlainOf(lp))); }
  void GoodHelper() { Judge("after", name + " helper", helper_ok, s.helper->HandleRequest(Encrypted(s.sealer.Seal(hp.SerializeAsString(), Context(s.kind))))); }

  void PlainCall(const dp::PirRequest& r, const std::string& what) {
    std::optional<Strings> want;
    if (r.dpf_pir_request().wrapped_request_case() == dp::DpfPirRequest::kPlainRequest) want = s.Expect(r.dpf_pir_request().plain_request(), s.plain_rows);
    Judge("plain", name + " plain " + what, want, s.plain->HandleRequest(r));
  }
  void HelperCall(const std::string& inner, const std::string& what) {
    HelperReq h;
    std::optional<Strings> want;
    if (h.ParseFromString(inner)) want = s.ExpectHelper(h);
    Judge("helper", name + " helper " + what, want, s.helper->HandleRequest(Encrypted(s.sealer.Seal(inner, Context(s.kind)))));
    s.sealer.table.clear();
  }
  std::optional<Strings> LeaderWant(const dp::PirRequest& r) {
    auto& d = r.dpf_pir_request();
    if (d.wrapped_request_case() != dp::DpfPirRequest::kLeaderRequest) return std::nullopt;
    if (!d.leader_request().has_plain_request() || !d.leader_request().has_encrypted_helper_request()) return std::nullopt;
    auto mine = s.Expect(d.leader_request().plain_request(), s.leader_rows);
    auto it = s.sealer.table.find(d.leader_request().encrypted_helper_request().encrypted_request());
    if (!mine || it == s.sealer.table.end() || it->second.second != Context(s.kind)) return std::nullopt;
    HelperReq h;
    if (!h.ParseFromString(it->second.first)) return std::nullopt;
    auto theirs = s.ExpectHelper(h);
    if (!theirs || theirs->size() != mine->size()) return std::nullopt;
    for (size_t i = 0; i < mine->size(); ++i) {
      if ((*mine)[i].size() != (*theirs)[i].size()) return std::nullopt;
      (*mine)[i] = Xor((*mine)[i], (*theirs)[i]);
    }
    return mine;
  }
  void LeaderCall(const dp::PirRequest& r, const std::string& what) {
    s.order ^= 1;
    auto want = LeaderWant(r);
    Judge("leader", name + " leader " + what, want, s.leader->HandleRequest(r));
    s.to_helper.clear(), s.from_helper.clear();
  }
};

void RunRequests() {
  for (int kind = 0; kind < kKinds; ++kind)
    for (int n : Pick(std::vector<int>{1, 2, 5, 128, 129, 300}, std::vector<int>{1, 2, 3, 5, 8, 9, 127, 128, 129, 200, 256, 257, 300, 513, 1025})) {
      if (kind == kCuckoo && n < 5) continue;
      std::string base = F("%s/%d", kNames[kind], n);
      for (int role = 0; role < 3; ++role)
        for (int q : {1, 2}) {
          if (!Case(F("requests/%s/role%d/q%d", base.c_str(), role, q))) continue;
          R().Reset(n * 10 + role);
          Sys s;
          if (!s.Make(Kind(kind), n)) continue;
          Requests r(s, q, base);
          if (!r.Base()) continue;
          Mutator mu;
          if (role == 0) {
            dp::PirRequest p = PlainOf(r.lp);
            int i = 0;
            for (auto& m : mu.Of(p)) {
              r.PlainCall(Applied(p, m), m.what);
              if (++i % 4 == 0) r.GoodPlain();
            }
            r.PlainCall(PlainOf(r.hp.plain_request()), "other");
            r.PlainCall(r.full, "leader-request");
            r.PlainCall(Encrypted(r.handle), "encrypted");
            if (!s.plain->HandleRequest(PlainOf(r.lp)).ok()) Fail("after", "%s", base.c_str());
          } else if (role == 1) {
            int i = 0;
            for (auto& m : mu.Of(r.hp)) {
              r.HelperCall(Applied(r.hp, m).SerializeAsString(), m.what);
              if (++i % 4 == 0) r.GoodHelper();
            }
            // Raw bytes of the decrypted request.
            std::string raw = r.hp.SerializeAsString();
            for (size_t i = 0; i < raw.size(); ++i) {
              std::string cut = raw.substr(0, i), flip = raw, hi = raw, drop = raw;
              flip[i] ^= 1, hi[i] ^= 0x80;
              drop.erase(i, 1);
              r.HelperCall(cut, F("cut at %zu", i));
              r.HelperCall(flip, F("low bit of byte %zu", i));
              r.HelperCall(hi, F("high bit of byte %zu", i));
              r.HelperCall(drop, F("without byte %zu", i));
            }
            r.GoodHelper();
            // The outer request.
            std::string h = s.sealer.Seal(raw, Context(s.kind));
            dp::PirRequest e = Encrypted(h);
            for (auto& m : mu.Of(e)) {
              dp::PirRequest x = Applied(e, m);
              auto& dr = x.dpf_pir_request();
              std::optional<Strings> want;
              if (dr.wrapped_request_case() == dp::DpfPirRequest::kEncryptedHelperRequest && dr.encrypted_helper_request().encrypted_request() == h) want = r.helper_ok;
              Judge("helper", base + " helper outer " + m.what, want, s.helper->HandleRequest(x));
            }
            Judge("helper", base + " helper context", std::nullopt, s.helper->HandleRequest(Encrypted(s.sealer.Seal(raw, "another context"))));
            Judge("helper", base + " helper plain", std::nullopt, s.helper->HandleRequest(PlainOf(r.lp)));
            Judge("helper", base + " helper leader", std::nullopt, s.helper->HandleRequest(r.full));
            r.GoodHelper();
          } else {
            int i = 0;
            for (auto& m : mu.Of(r.full)) {
              r.LeaderCall(Applied(r.full, m), m.what);
              if (++i % 4 == 0) r.LeaderCall(r.full, "again");
            }
            // Different damage to the helper's part.
            for (auto& m : mu.Of(r.hp)) {
              dp::PirRequest x = r.full;
              x.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(
                  s.sealer.Seal(Applied(r.hp, m).SerializeAsString(), Context(s.kind)));
              *x.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = r.lp;
              r.LeaderCall(x, "inner " + m.what);
            }
            r.LeaderCall(PlainOf(r.lp), "plain");
            r.LeaderCall(r.full, "again");
          }
        }
    }
  // Pairs of changes.
  for (int kind = 0; kind < kKinds; ++kind)
    for (int n : Pick(std::vector<int>{5}, std::vector<int>{5, 129}))
      for (int role = 0; role < 2; ++role) {
        const int slices = Pick(8, 64);
        for (int slice = 0; slice < slices; ++slice) {
          if (!Case(F("pairs/%s/%d/role%d/%d", kNames[kind], n, role, slice))) continue;
          R().Reset(n * 10 + role + 7);
          Sys s;
          if (!s.Make(Kind(kind), n)) continue;
          Requests r(s, 1, F("%s/%d", kNames[kind], n));
          if (!r.Base()) continue;
          Mutator mu;
          mu.head = Pick(1, 2);
          dp::PirRequest p = PlainOf(r.lp);
          auto ms = role == 0 ? mu.Of(p) : mu.Of(r.hp);
          for (size_t a = slice; a < ms.size(); a += slices) {
            std::vector<Mutation> second;
            if (role == 0) {
              dp::PirRequest x = Applied(p, ms[a]);
              for (auto& m : mu.Of(x)) r.PlainCall(Applied(x, m), ms[a].what + " " + m.what);
            } else {
              HelperReq x = Applied(r.hp, ms[a]);
              for (auto& m : mu.Of(x)) r.HelperCall(Applied(x, m).SerializeAsString(), ms[a].what + " " + m.what);
            }
            role == 0 ? r.GoodPlain() : r.GoodHelper();
          }
        }
      }
  // Requests of a client that was set up with another hash seed.
  for (Kind kd : {kSimple, kCuckoo})
    for (int n : {5, 129}) {
      if (!Case(F("other-seed/%s/%d", kNames[kd], n))) continue;
      R().Reset(n);
      Sys a, b;
      if (!a.Make(kd, n) || !b.Make(kd, n, "another seed ...")) continue;
      for (int q = 1; q <= (Thorough() ? 70 : 24); ++q) {
        auto r = a.Plain(q);
        auto f = a.Request(q);
        if (!r.ok() || !f.ok()) { Fail("create", "%s", r.status().ToString().c_str()); continue; }
        std::string what = F("%d queries of a client with another hash seed", q);
        for (int party = 0; party < 2; ++party) {
          PlainRequest p = party ? std::get<1>(*r).plain_request() : std::get<0>(*r);
          Judge("other-seed", what, std::nullopt, b.plain->HandleRequest(PlainOf(p)));
          Judge("own-seed", what, a.Expect(p, a.plain_rows), a.plain->HandleRequest(PlainOf(p)));
        }
        Judge("other-seed", what, std::nullopt, b.helper->HandleRequest(Encrypted(b.sealer.Seal(std::get<1>(*r).SerializeAsString(), Context(kd)))));
        // Both servers refuse, so either one's refusal suffices for the client.
        dp::PirRequest sealed = f->first;
        Judge("other-seed", what, std::nullopt, b.leader->HandleRequest(sealed));
        *sealed.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = f->first.dpf_pir_request().leader_request().encrypted_helper_request();
        Judge("other-seed", what, std::nullopt, b.helper->HandleRequest(sealed));
      }
    }
  // Requests made for another database, kind or hash seed.
  std::vector<int> sizes = {1, 2, 4, 5, 8, 9, 64, 65, 128, 129, 130, 255, 257, 300};
  for (int ka = 0; ka < kKinds; ++ka)
    for (int kb = 0; kb < kKinds; ++kb)
      for (int n : sizes) {
        if (ka == kCuckoo && n < 5) continue;
        if (!Case(F("foreign/%s-to-%s/%d", kNames[ka], kNames[kb], n))) continue;
        R().Reset(n);
        Sys a;
        if (!a.Make(Kind(ka), n)) continue;
        for (int m : sizes) {
          if (kb == kCuckoo && m < 5) continue;
          for (int other = 0; other < 2; ++other) {
            Sys b;
            if (!b.Make(Kind(kb), m, other ? "another seed ..." : kSeed)) continue;
            auto r = a.Plain(2);
            auto f = a.Request(1);
            if (!r.ok() || !f.ok()) { Fail("create", "%s", r.status().ToString().c_str()); continue; }
            std::string what = F("request for %s of %d to %s of %d seed %d", kNames[ka], n, kNames[kb], m, other);
            for (int party = 0; party < 2; ++party) {
              PlainRequest p = party ? std::get<1>(*r).plain_request() : std::get<0>(*r);
              Judge("foreign", what, b.Expect(p, b.plain_rows), b.plain->HandleRequest(PlainOf(p)));
            }
            HelperReq h = std::get<1>(*r);
            Judge("foreign", what, b.ExpectHelper(h), b.helper->HandleRequest(Encrypted(b.sealer.Seal(h.SerializeAsString(), Context(b.kind)))));
            // Sealed for another kind of server: the context differs.
            if (ka != kb) Judge("foreign", what, std::nullopt, b.helper->HandleRequest(Encrypted(b.sealer.Seal(h.SerializeAsString(), Context(a.kind)))));
          }
        }
      }
}

// ---------------------------------------------------------------- responses
// Wire format of a bucket, as far as needed. 1: parsed, 0: malformed, -1: no statement.
int ParseBucket(const std::string& s, Strings* keys, Strings* values) {
  size_t i = 0;
  auto varint = [&](uint64_t* v) {  // 1 ok, 0 truncated, -1 unusual
    *v = 0;
    for (int k = 0;; ++k) {
      if (i >= s.size()) return k >= 5 ? -1 : 0;
      uint8_t c = s[i++];
      if (k >= 5) return -1;
      *v |= uint64_t(c & 127) << (7 * k);
      if (c < 128) return *v >> 31 ? -1 : 1;
    }
  };
  while (i < s.size()) {
    uint64_t tag, len;
    int r = varint(&tag);
    if (r != 1) return r;
    if (tag == 0) return 1;
    int wt = tag & 7;
    uint64_t f = tag >> 3;
    if (f == 0 || wt == 3 || wt == 4) return -1;
    if (wt > 5) return 0;
    if (wt == 0) {
      int k = 0;
      for (;; ++k) {
        if (i >= s.size()) return k >= 9 ? -1 : 0;
        if (!(s[i++] & 0x80)) break;
        if (k >= 8) return -1;
      }
      continue;
    }
    if (wt == 1 || wt == 5) {
      size_t w = wt == 1 ? 8 : 4;
      if (s.size() - i < w) return 0;
      i += w;
      continue;
    }
    r = varint(&len);
    if (r != 1) return r;
    if (len > s.size() - i) return 0;
    if (f == 1) keys->push_back(s.substr(i, len));
    if (f == 2) values->push_back(s.substr(i, len));
    i += len;
  }
  return 1;
}
bool ZeroPadded(const std::string& in, const std::string& key) {
  return in.size() >= key.size() && in.substr(0, key.size()) == key && in.find_first_not_of('\0', key.size()) == std::string::npos;
}
// what: 1 must answer *out, 0 must refuse, -1 anything
int ExpectHandle(const Sys& s, const dp::PirResponse& r, const dp::PirRequestClientState& st, Results* out) {
  if (r.wrapped_pir_response_case() != dp::PirResponse::kDpfPirResponse) return 0;
  Strings in = Parts(r), q;
  std::string seed;
  using PS = dp::PirRequestClientState;
  switch (s.kind) {
    case kDense:
      if (st.wrapped_pir_request_client_state_case() != PS::kDenseDpfPirRequestClientState) return 0;
      seed = st.dense_dpf_pir_request_client_state().one_time_pad_seed();
      break;
    case kSimple: {
      if (st.wrapped_pir_request_client_state_case() != PS::kSimpleHashingSparseDpfPirRequestClientState) return 0;
      auto& x = st.simple_hashing_sparse_dpf_pir_request_client_state();
      seed = x.one_time_pad_seed();
      q.assign(x.query_strings().begin(), x.query_strings().end());
      if (q.size() != in.size()) return 0;
      break;
    }
    default: {
      if (st.wrapped_pir_request_client_state_case() != PS::kCuckooHashingSparseDpfPirRequestClientState) return 0;
      auto& x = st.cuckoo_hashing_sparse_dpf_pir_request_client_state();
      seed = x.one_time_pad_seed();
      q.assign(x.query_strings().begin(), x.query_strings().end());
      if (q.size() * 2 * s.k != in.size()) return 0;
    }
  }
  if (in.empty() || seed.size() != 16) return 0;
  size_t total = 0;
  for (auto& x : in) total += x.size();
  std::string ks = Keystream(seed, total);
  size_t at = 0;
  for (auto& x : in) {
    std::string cut = ks.substr(at, x.size());
    at += x.size();
    x = Xor(x, cut);
  }
  if (s.kind == kDense) {
    out->assign(in.begin(), in.end());
    return 1;
  }
  int verdict = 1;
  for (size_t i = 0; i < q.size(); ++i) {
    absl::optional<std::string> res;
    if (s.kind == kSimple) {
      Strings keys, values;
      int r = ParseBucket(in[i], &keys, &values);
      if (r == 1 && keys.size() != values.size()) r = 0;
      if (r == 0) return 0;
      if (r == -1) verdict = -1;
      for (size_t j = 0; r == 1 && j < keys.size(); ++j)
        if (keys[j] == q[i]) { res = values[j]; break; }
    } else {
      for (int j = 0; j < s.k; ++j) {
        const std::string& key = in[2 * (s.k * i + j)];
        if (!q[i].empty() && ZeroPadded(key, q[i])) { res = in[2 * (s.k * i + j) + 1]; break; }
      }
    }
    out->push_back(res);
  }
  return verdict;
}
void HandleCall(const Sys& s, const dp::PirResponse& r, const dp::PirRequestClientState& st, const std::string& what) {
  Results want;
  int v = ExpectHandle(s, r, st, &want);
  auto got = s.Handle(r, st);
  Trans();
  if (v < 0) return;
  if (v == 0) {
    if (got.ok()) Fail("response-accepted", "%s: answered with OK", what.c_str());
    return;
  }
  Trace();
  if (!got.ok()) { Fail("response-refused", "%s: %s", what.c_str(), got.status().ToString().c_str()); return; }
  if (*got != want) Fail("response-wrong", "%s: wrong records", what.c_str());
  for (auto& x : *got) State(Hash(x.value_or("-")));
}
void RunResponses() {
  for (int kind = 0; kind < kKinds; ++kind)
    for (int n : {1, 5, 300})
      for (int q : {1, 2, 3}) {
        if (kind == kCuckoo && n < 5) continue;
        if (n == 1 && kind == kDense && q > 1) continue;
        const int slices = 4;
        for (int slice = 0; slice <= slices; ++slice) {  // 0: single changes
          if (slice && q == 3) continue;
          if (!Case(F("responses/%s/%d/q%d/%d", kNames[kind], n, q, slice))) continue;
          R().Reset(n + q);
          Sys s;
          if (!s.Make(Kind(kind), n)) continue;
          auto f = s.Request(q);
          if (!f.ok()) { Fail("create", "%s", f.status().ToString().c_str()); continue; }
          auto resp = s.leader->HandleRequest(f->first);
          if (!resp.ok()) { Fail("create", "%s", resp.status().ToString().c_str()); continue; }
          std::string name = F("%s/%d", kNames[kind], n);
          HandleCall(s, *resp, f->second, name + " base");
          auto good = s.Handle(*resp, f->second);
          if (!good.ok()) { Fail("base", "%s", good.status().ToString().c_str()); continue; }
          Mutator mu;
          mu.head = 6;
          auto mr = mu.Of(*resp);
          auto ms = mu.Of(f->second);
          if (slice == 0) {
            for (auto& m : mr) HandleCall(s, Applied(*resp, m), f->second, name + m.what);
            for (auto& m : ms) HandleCall(s, *resp, Applied(f->second, m), name + m.what);
            // States and responses of other kinds.
            for (int other = 0; other < kKinds; ++other) {
              Sys o;
              if (!o.Make(Kind(other), 5)) continue;
              auto g = o.Request(q);
              if (g.ok()) HandleCall(s, *resp, g->second, name + " state of " + kNames[other]);
            }
            // Every part at every shorter length.
            for (int i = 0; i < (int)Parts(*resp).size(); ++i)
              for (size_t l = 0; l < std::min<size_t>(Parts(*resp)[i].size(), 60); ++l) {
                dp::PirResponse x = *resp;
                x.mutable_dpf_pir_response()->mutable_masked_response(i)->resize(l);
                HandleCall(s, x, f->second, name + F(" part %d cut to %zu", i, l));
              }
          } else {
            for (size_t a = slice - 1; a < mr.size(); a += slices) {
              auto x = Applied(*resp, mr[a]);
              for (auto& m : ms) HandleCall(s, x, Applied(f->second, m), name + mr[a].what + m.what);
              for (auto& m : mu.Of(x)) HandleCall(s, Applied(x, m), f->second, name + mr[a].what + m.what);
            }
            for (size_t a = slice - 1; a < ms.size(); a += slices) {
              auto x = Applied(f->second, ms[a]);
              for (auto& m : mu.Of(x)) HandleCall(s, *resp, Applied(x, m), name + ms[a].what + m.what);
            }
          }
          auto again = s.Handle(*resp, f->second);
          if (!again.ok() || *again != *good) Fail("after", "%s: a good response is answered differently after bad ones", name.c_str());
        }
      }
  // All short buckets.
  const std::string alphabet("\x00\x01\x02\x0a\x12k\xff", 7);
  const int maxlen = Pick(5, 7);
  for (int first = 0; first < 7; ++first)
    for (int second = 0; second < 7; ++second) {
      if (!Case(F("buckets/%d-%d", first, second))) continue;
      R().Reset(3);
      Sys s;
      if (!s.Make(kSimple, 5)) continue;
      std::string seed(16, 's');
      std::string ks = Keystream(seed, 64);
      std::function<void(std::string)> rec = [&](std::string b) {
        for (const char* q : {"k", "", "\x01"}) {
          dp::PirRequestClientState st;
          auto* x = st.mutable_simple_hashing_sparse_dpf_pir_request_client_state();
          x->set_one_time_pad_seed(seed);
          x->add_query_strings(q);
          dp::PirResponse r;
          r.mutable_dpf_pir_response()->add_masked_response(Xor(b, ks));
          HandleCall(s, r, st, "bucket " + Printable(b));
        }
        if ((int)b.size() < maxlen)
          for (char c : alphabet) rec(b + c);
      };
      if (second == 0) {
        // Lengths 0 and 1 belong to the first cases.
        std::string b(1, alphabet[first]);
        dp::PirRequestClientState st;
        auto* x = st.mutable_simple_hashing_sparse_dpf_pir_request_client_state();
        x->set_one_time_pad_seed(seed);
        x->add_query_strings("k");
        dp::PirResponse r;
        r.mutable_dpf_pir_response()->add_masked_response(Xor(b, ks));
        HandleCall(s, r, st, "bucket " + Printable(b));
        r.mutable_dpf_pir_response()->set_masked_response(0, "");
        HandleCall(s, r, st, "empty bucket");
      }
      rec(std::string{alphabet[first], alphabet[second]});
    }
  // Cuckoo tables: all short key parts against all short queries.
  if (Case("cells")) {
    R().Reset(3);
    Sys s;
    s.k = 2;
    if (!s.Make(kCuckoo, 5)) return;
    Strings words = {""};
    for (size_t i = 0; i < words.size(); ++i)
      if (words[i].size() < 3)
        for (char c : std::string("\0ab", 3)) words.push_back(words[i] + c);
    std::string seed(16, 't'), ks = Keystream(seed, 64);
    for (auto& q : words)
      for (auto& a : words)
        for (auto& b : words) {
          if (b.size() > 2 && a.size() > 2) continue;
          dp::PirRequestClientState st;
          auto* x = st.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state();
          x->set_one_time_pad_seed(seed);
          x->add_query_strings(q);
          dp::PirResponse r;
          std::string all = a + "v1" + b + "v2", m = Xor(all, ks);
          size_t at = 0;
          for (size_t len : {a.size(), size_t{2}, b.size(), size_t{2}}) r.mutable_dpf_pir_response()->add_masked_response(m.substr(at, len)), at += len;
          HandleCall(s, r, st, F("query %s cells %s, %s", Printable(q).c_str(), Printable(a).c_str(), Printable(b).c_str()));
        }
  }
  // Queries outside the database.
  for (int n : {1, 5, 127, 128, 129, 300}) {
    if (!Case(F("range/%d", n))) continue;
    R().Reset(n);
    Sys s;
    if (!s.Make(kDense, n)) continue;
    std::vector<int> bad = {-1, -2, -127, -128, -129, -n, INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, n, n + 1, 2 * n, n + 127, n + 128, 1 << 16, 1 << 30};
    for (int b : bad)
      for (int at = 0; at < 3; ++at)
        for (int len = at + 1; len <= 3; ++len) {
          std::vector<int> q(len, n / 2);
          q[at] = b;
          Trans(2);
          if (s.dense->CreatePlainRequests(q).ok() || s.dense->CreateRequest(q).ok()) Fail("range", "%d rows: index %d accepted", n, b);
        }
    for (int i = 0; i < n; ++i)
      if (!s.dense->CreatePlainRequests({i}).ok()) Fail("range-refused", "%d rows: index %d refused", n, i);
  }
}

// ---------------------------------------------------------------- configurations
void Expectation(const char* sig, const std::string& what, int want, bool ok) {
  Trans();
  State(Hash(what));
  if (want >= 0 && ok != (want == 1)) Fail(sig, "%s: %s", what.c_str(), ok ? "accepted" : "refused");
}
template <typename S, typename P, typename Db>
void AllRoles(const std::string& what, const P& p, Db db, int want) {
  Sealer sl;
  auto sender = [](const dp::PirRequest&, absl::AnyInvocable<void()>) -> absl::StatusOr<dp::PirResponse> { return absl::InternalError("unused"); };
  Expectation("server", what + " plain", want, S::CreatePlain(p, db()).ok());
  Expectation("server", what + " leader", want, S::CreateLeader(p, db(), sender).ok());
  Expectation("server", what + " helper", want, S::CreateHelper(p, db(), sl.Decrypter()).ok());
  Expectation("server", what + " leader without sender", 0, S::CreateLeader(p, db(), nullptr).ok());
  Expectation("server", what + " helper without decrypter", 0, S::CreateHelper(p, db(), nullptr).ok());
  Expectation("server", what + " no database", 0, S::CreatePlain(p, nullptr).ok());
  Expectation("server", what + " leader no database", 0, S::CreateLeader(p, nullptr, sender).ok());
  Expectation("server", what + " helper no database", 0, S::CreateHelper(p, nullptr, sl.Decrypter()).ok());
}
const int64_t kCounts[] = {INT64_MIN, INT_MIN, -129, -5, -1, 0, 1, 2, 4, 5, 6, 128, 129, 1000, INT_MAX - 1LL, INT_MAX, INT_MAX + 1LL, 1431655764, 1431655765, 1431655766,
                           INT64_C(1) << 32, (INT64_C(1) << 32) + 5, INT64_C(1) << 61, INT64_C(1) << 62, INT64_MAX - 1, INT64_MAX};
void RunConfigs() {
  // Configurations of every kind given to everything that takes one.
  std::vector<std::pair<std::string, dp::PirConfig>> cs;
  cs.push_back({"empty", dp::PirConfig()});
  for (int64_t v : kCounts) {
    dp::PirConfig c;
    c.mutable_dense_dpf_pir_config()->set_num_elements(v);
    cs.push_back({F("dense/%lld", (long long)v), c});
    for (int f : {0, 1, 2, -1, 77}) {
      dp::PirConfig d, e;
      d.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(v);
      d.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(f));
      cs.push_back({F("simple/%lld/%d", (long long)v, f), d});
      e.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(v);
      e.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(f));
      cs.push_back({F("cuckoo/%lld/%d", (long long)v, f), e});
    }
  }
  for (auto& [name, c] : cs) {
    if (!Case("config/" + name)) continue;
    R().Reset(1);
    Sealer sl;
    bool is_dense = c.wrapped_pir_config_case() == dp::PirConfig::kDenseDpfPirConfig;
    int64_t dn = c.dense_dpf_pir_config().num_elements();
    auto cl = dp::DenseDpfPirClient::Create(c, sl.Encrypter());
    // Domains beyond 2^62 elements may be refused.
    Expectation("dense-client", name, is_dense && dn > 0 ? (dn > (INT64_C(1) << 62) ? -1 : 1) : 0, cl.ok());
    Expectation("dense-client", name + " no encrypter", 0, dp::DenseDpfPirClient::Create(c, nullptr).ok());
    if (cl.ok()) {
      for (int64_t i : {int64_t{0}, dn - 1, int64_t{INT_MAX}})
        if (i >= 0 && i <= INT_MAX) Expectation("dense-client-query", F("%s index %lld", name.c_str(), (long long)i), i < dn, (*cl)->CreatePlainRequests({(int)i}).ok());
    }
    for (int rows : {0, 1, 4, 5, 6, 129}) {
      auto db = [rows] {
        dp::DenseDpfPirDatabase::Builder b;
        for (int i = 0; i < rows; ++i) b.Insert("r");
        return std::move(*b.Build());
      };
      AllRoles<DS>(F("%s %d rows", name.c_str(), rows), c, db, is_dense && dn > 0 && dn == rows);
    }
    auto sp = SS::GenerateParams(c);
    auto& sc = c.simple_hashing_sparse_dpf_pir_config();
    bool s_ok = c.wrapped_pir_config_case() == dp::PirConfig::kSimpleHashingSparseDpfPirConfig && sc.num_buckets() > 0 && sc.hash_family() != 0;
    Expectation("simple-params", name, !s_ok ? 0 : sc.num_buckets() > INT_MAX || sc.hash_family() != 1 ? -1 : 1, sp.ok());
    if (sp.ok()) {
      if (sp->num_buckets() != sc.num_buckets() || sp->hash_family_config().hash_family() != sc.hash_family() || sp->hash_family_config().seed().size() != 16)
        Fail("simple-params-wrong", "%s: %s", name.c_str(), sp->ShortDebugString().c_str());
    }
    auto cp = CS::GenerateParams(c);
    auto& cc = c.cuckoo_hashing_sparse_dpf_pir_config();
    bool c_ok = c.wrapped_pir_config_case() == dp::PirConfig::kCuckooHashingSparseDpfPirConfig && cc.num_elements() > 0 && cc.hash_family() != 0;
    Expectation("cuckoo-params", name, !c_ok || cc.num_elements() > INT_MAX ? 0 : cc.hash_family() != 1 || cc.num_elements() > INT_MAX / 3 * 2 ? -1 : 1, cp.ok());
    if (cp.ok() && (cp->num_buckets() < cc.num_elements() || cp->num_buckets() > INT_MAX || cp->num_hash_functions() < 1 ||
                    cp->hash_family_config().hash_family() != cc.hash_family() || cp->hash_family_config().seed().size() != 16))
      Fail("cuckoo-params-wrong", "%s: %s", name.c_str(), cp->ShortDebugString().c_str());
  }
  // Hashing parameters.
  for (int n : {5, 130})
    for (int pairs = 0; pairs < 2; ++pairs) {
      if (pairs && n != 5 && !Thorough()) continue;
      for (int kind = kSimple; kind < kKinds; ++kind) {
        if (!Case(F("params/%s/%d/%d", kNames[kind], n, pairs))) continue;
        R().Reset(1);
        Sys s;
        if (!s.Make(Kind(kind), n)) continue;
        dp::PirServerPublicParams base;
        if (kind == kSimple) *base.mutable_simple_hashing_sparse_dpf_pir_server_params() = s.SimpleParams();
        else *base.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = s.CuckooParams();
        Mutator mu;
        std::vector<std::pair<std::string, dp::PirServerPublicParams>> all;
        for (auto& m : mu.Of(base)) {
          auto x = Applied(base, m);
          all.push_back({m.what, x});
          if (pairs)
            for (auto& m2 : mu.Of(x)) all.push_back({m.what + m2.what, Applied(x, m2)});
        }
        for (int64_t v : kCounts) {
          auto x = base;
          if (kind == kSimple) x.mutable_simple_hashing_sparse_dpf_pir_server_params()->set_num_buckets(v);
          else x.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->set_num_buckets(v);
          all.push_back({F("buckets=%lld", (long long)v), x});
        }
        for (auto& [what, x] : all) {
          Sealer sl;
          auto& sp = x.simple_hashing_sparse_dpf_pir_server_params();
          auto& cp = x.cuckoo_hashing_sparse_dpf_pir_server_params();
          if (cp.num_hash_functions() > 1000) continue;  // would only exhaust memory
          auto good_family = [](const dp::HashFamilyConfig& f) { return f.hash_family() == 1 && !f.seed().empty(); };
          int simple = x.wrapped_pir_server_public_params_case() == dp::PirServerPublicParams::kSimpleHashingSparseDpfPirServerParams && sp.num_buckets() > 0 &&
                       sp.num_buckets() <= INT_MAX && good_family(sp.hash_family_config());
          int cuckoo = x.wrapped_pir_server_public_params_case() == dp::PirServerPublicParams::kCuckooHashingSparseDpfPirServerParams && cp.num_buckets() > 0 &&
                       cp.num_buckets() <= INT_MAX && good_family(cp.hash_family_config()) && cp.num_hash_functions() > 0;
          auto a = dp::SimpleHashingSparseDpfPirClient::Create(x, sl.Encrypter());
          Expectation("simple-client", what, simple, a.ok());
          auto b = dp::CuckooHashingSparseDpfPirClient::Create(x, sl.Encrypter());
          Expectation("cuckoo-client", what, cuckoo, b.ok());
          Expectation("simple-client", what + " no encrypter", 0, dp::SimpleHashingSparseDpfPirClient::Create(x, nullptr).ok());
          Expectation("cuckoo-client", what + " no encrypter", 0, dp::CuckooHashingSparseDpfPirClient::Create(x, nullptr).ok());
          if (a.ok() && !(*a)->CreateRequest({"k1", ""}).ok()) Fail("client-query", "%s", what.c_str());
          if (b.ok() && !(*b)->CreateRequest({"k1", ""}).ok()) Fail("client-query", "%s", what.c_str());
          // A server over the genuine database.
          if (kind == kSimple) {
            int want = sp.num_buckets() != n || sp.hash_family_config().hash_family() == 0 ? 0 : good_family(sp.hash_family_config()) ? 1 : -1;
            AllRoles<SS>(what, sp, [&] { return s.SimpleDb(); }, want);
            auto srv = SS::CreatePlain(sp, s.SimpleDb());
            if (srv.ok() && (*srv)->GetPublicParams().simple_hashing_sparse_dpf_pir_server_params().SerializeAsString() != sp.SerializeAsString()) Fail("published", "%s", what.c_str());
            if (sp.num_buckets() > 1000) continue;
            dp::SimpleHashedDpfPirDatabase::Builder bl;
            bl.SetParams(sp);
            for (int i = 0; i < 3; ++i) bl.Insert({KeyName(i), "v"});
            auto d = bl.Build();
            Expectation("simple-build", what, sp.num_buckets() > 0 && good_family(sp.hash_family_config()), d.ok());
            if (d.ok() && ((*d)->size() != 3 || (int64_t)(*d)->num_selection_bits() != sp.num_buckets())) Fail("simple-build-size", "%s", what.c_str());
          } else {
            int want = cp.num_buckets() != n || cp.hash_family_config().hash_family() == 0 || cp.num_hash_functions() <= 0 ? 0 : good_family(cp.hash_family_config()) ? 1 : -1;
            AllRoles<CS>(what, cp, [&] { return s.CuckooDb(); }, want);
            auto srv = CS::CreatePlain(cp, s.CuckooDb());
            if (srv.ok() && (*srv)->GetPublicParams().cuckoo_hashing_sparse_dpf_pir_server_params().SerializeAsString() != cp.SerializeAsString()) Fail("published", "%s", what.c_str());
            if (cp.num_buckets() > 1000) continue;
            dp::CuckooHashedDpfPirDatabase::Builder bl;
            bl.SetParams(cp);
            for (int i = 0; i < 2; ++i) bl.Insert({KeyName(i), "v"});
            auto d = bl.Build();
            bool valid = cp.num_buckets() > 0 && good_family(cp.hash_family_config()) && cp.num_hash_functions() > 0;
            Expectation("cuckoo-build", what, !valid ? 0 : -1, d.ok());
            if (d.ok() && ((*d)->size() != 2 || (int64_t)(*d)->num_selection_bits() != cp.num_buckets())) Fail("cuckoo-build-size", "%s", what.c_str());
          }
        }
      }
    }
  // Databases of empty records: an error or empty answers, no crash.
  for (int n : {1, 5, 130}) {
    if (!Case(F("empty-records/%d", n))) continue;
    R().Reset(1);
    Sys s;
    if (!s.Make(kDense, n)) continue;
    dp::DenseDpfPirDatabase::Builder b;
    for (int i = 0; i < n; ++i) b.Insert("");
    auto srv = DS::CreatePlain(s.DenseConfig(), std::move(*b.Build()));
    auto r = s.Plain(2);
    if (!srv.ok() || !r.ok()) { Fail("create", "%d", n); continue; }
    auto a = (*srv)->HandleRequest(PlainOf(std::get<0>(*r)));
    Trans();
    if (a.ok())
      for (auto& p : Parts(*a)) if (!p.empty()) Fail("empty-records", "%d rows: answered %zu bytes", n, p.size());
  }
}
}  // namespace

void VpRun() {
  if (Mode("requests")) RunRequests();
  if (Mode("responses")) RunResponses();
  if (Mode("configs")) RunConfigs();
}
