// P18-P20: retrieval end to end. P22 (mode pad): masking and separation.
#include <set>

#include "choices.h"
#include "dpf/distributed_point_function.h"
#include "pir_common.h"
using namespace vp;

namespace {
using Strings = std::vector<std::string>;
char Byte(uint64_t row, uint64_t i) { return char(Mix(row * 1000003 + i) >> 11); }

#ifdef __SANITIZE_ADDRESS__
constexpr bool kDeep = false;  // sanitized builds keep to the quick bounds
#else
constexpr bool kDeep = true;
#endif
// ---------------------------------------------------------------- dense
constexpr int kPatterns = 5;
Strings DenseRows(int n, int pattern) {
  Strings rows;
  for (int i = 0; i < n; ++i) {
    size_t len = 0;
    switch (pattern) {
      case 0: len = 1; break;
      case 1: { static const int k[] = {0, 1, 16, 17, 5, 32, 0, 64}; len = k[i % 8] + (n == 1); break; }
      case 2: len = i == n / 2 ? 131 : 3; break;
      case 3: len = i == n - 1 ? 9 : 0; break;
      case 4: len = 40; break;
    }
    std::string s;
    for (size_t k = 0; k < len; ++k) s += pattern == 4 && k % 3 == 0 ? '\0' : Byte(i * 5 + pattern, k);
    rows.push_back(s);
  }
  return rows;
}
std::unique_ptr<dp::DenseDpfPirServer::Database> DenseDb(const Strings& rows) {
  dp::DenseDpfPirDatabase::Builder b;
  for (auto& r : rows) b.Insert(r);
  auto d = b.Build();
  if (!d.ok()) return nullptr;
  return std::move(*d);
}
dp::PirConfig DenseConfig(int64_t n) {
  dp::PirConfig c;
  c.mutable_dense_dpf_pir_config()->set_num_elements(n);
  return c;
}
struct Dense : System {
  std::unique_ptr<dp::DenseDpfPirClient> client;
  Strings rows;
  size_t max = 0;
  std::unique_ptr<dp::DistributedPointFunction> dpf;
  bool Make(const Strings& r) {
    rows = r;
    for (auto& s : rows) max = std::max(max, s.size());
    auto c = DenseConfig(rows.size());
    auto p = dp::DenseDpfPirServer::CreatePlain(c, DenseDb(rows));
    auto h = dp::DenseDpfPirServer::CreateHelper(c, DenseDb(rows), sealer.Decrypter());
    auto l = dp::DenseDpfPirServer::CreateLeader(c, DenseDb(rows), Sender());
    auto k = dp::DenseDpfPirClient::Create(c, sealer.Encrypter());
    if (!p.ok() || !h.ok() || !l.ok() || !k.ok()) { Fail("create", "%zu rows", rows.size()); return false; }
    plain = std::move(*p), helper = std::move(*h), leader = std::move(*l), client = std::move(*k);
    return true;
  }
  std::string Padded(int i) const {
    std::string s = rows[i];
    s.resize(max, '\0');
    return s;
  }
};
std::string Show(const std::vector<int>& q) {
  std::string s = "[";
  for (size_t i = 0; i < q.size() && i < 8; ++i) s += F("%s%d", i ? "," : "", q[i]);
  return s + (q.size() > 8 ? F(",..(%zu)]", q.size()) : "]");
}
// One query, both ways to run it.
void DenseQuery(Dense& s, const std::vector<int>& q, bool shares, const std::string& what) {
  auto judge = [&](const char* how, const absl::StatusOr<Strings>& r) {
    Trace();
    if (!r.ok()) { Fail(F("%s-status", how), "%s %s: %s", what.c_str(), Show(q).c_str(), r.status().ToString().c_str()); return; }
    if (r->size() != q.size()) { Fail(F("%s-count", how), "%s %s: %zu records", what.c_str(), Show(q).c_str(), r->size()); return; }
    for (size_t i = 0; i < q.size(); ++i) {
      State(Hash((*r)[i], q[i]));
      if ((*r)[i] != s.Padded(q[i]))
        Fail(how, "%s %s: record %zu is %s, not row %d (%s)", what.c_str(), Show(q).c_str(), i, Printable((*r)[i]).c_str(), q[i], Printable(s.Padded(q[i])).c_str());
    }
  };
  // Two plain servers.
  auto reqs = s.client->CreatePlainRequests(q);
  if (!reqs.ok()) { Fail("request", "%s %s: %s", what.c_str(), Show(q).c_str(), reqs.status().ToString().c_str()); return; }
  auto& [lr, hr, state] = *reqs;
  absl::StatusOr<dp::PirResponse> a = s.plain->HandleRequest(PlainOf(lr)), b = s.plain->HandleRequest(PlainOf(hr.plain_request()));
  Trans(2);
  if (!a.ok() || !b.ok()) {
    Fail("plain-status", "%s %s: %s", what.c_str(), Show(q).c_str(), (a.ok() ? b : a).status().ToString().c_str());
  } else {
    Strings pa = Parts(*a), pb = Parts(*b);
    absl::StatusOr<Strings> sum = Strings();
    if (pa.size() != pb.size()) sum = absl::InternalError("different numbers of shares");
    else
      for (size_t i = 0; i < pa.size(); ++i) {
        if (pa[i].size() != pb[i].size()) Fail("plain-size", "%s %s", what.c_str(), Show(q).c_str());
        sum->push_back(Xor(pa[i], pb[i]));
      }
    judge("plain", sum);
    if (shares)
      for (int party = 0; party < 2; ++party) {
        const PlainRequest& p = party ? hr.plain_request() : lr;
        if (p.dpf_key_size() != (int)q.size()) { Fail("keys", "%d keys", p.dpf_key_size()); continue; }
        for (int k = 0; k < p.dpf_key_size(); ++k) {
          auto ctx = s.dpf->CreateEvaluationContext(p.dpf_key(k));
          if (!ctx.ok()) { Fail("key", "%s", ctx.status().ToString().c_str()); continue; }
          auto sel = s.dpf->EvaluateNext<dp::XorWrapper<absl::uint128>>({}, *ctx);
          std::string want(s.max, '\0');
          for (size_t i = 0; i < s.rows.size(); ++i)
            if (static_cast<uint64_t>((*sel)[i / 128].value() >> (i % 128)) & 1) want = Xor(want, s.Padded(i));
          if (k < (int)Parts(party ? *b : *a).size() && Parts(party ? *b : *a)[k] != want)
            Fail("share", "%s %s: party %d key %d", what.c_str(), Show(q).c_str(), party, k);
        }
      }
  }
  // Leader and helper.
  auto full = s.client->CreateRequest(q);
  if (!full.ok()) { Fail("request", "%s %s: %s", what.c_str(), Show(q).c_str(), full.status().ToString().c_str()); return; }
  s.order ^= 1;
  auto resp = s.leader->HandleRequest(full->first);
  Trans(3);
  if (!resp.ok()) { Fail("protocol-status", "%s %s: %s", what.c_str(), Show(q).c_str(), resp.status().ToString().c_str()); return; }
  judge("protocol", s.client->HandleResponse(*resp, full->second));
}
void RunDense() {
  const int small = kDeep ? Pick(300, 900) : 200;
  std::vector<int> sizes;
  for (int n = 1; n <= small; ++n) sizes.push_back(n);
  for (int n : {159, 160, 161, 191, 192, 193, 200, 254, 255, 256, 257, 258, 300, 383, 384, 385, 511, 512, 513, 640, 1000, 1023, 1024, 1025}) if (n > small) sizes.push_back(n);
  if (kDeep && Thorough()) for (int n : {1151, 1152, 1153, 2047, 2048, 2049, 4095, 4096, 4097, 10000}) sizes.push_back(n);
  for (int n : sizes)
    for (int pattern = 0; pattern < kPatterns; ++pattern) {
      if (n > 300 && pattern != 1 && pattern != 2) continue;
      if (!(kDeep && Thorough()) && n > 140 && pattern != n % kPatterns && pattern != 1) continue;
      if (!Case(F("dense/n%d/%d", n, pattern))) continue;
      R().Reset(n * 8 + pattern);
      Dense s;
      if (!s.Make(DenseRows(n, pattern))) continue;
      dp::DpfParameters prm;
      int lg = 0;
      while ((1 << lg) < n) ++lg;
      prm.set_log_domain_size(lg);
      prm.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
      s.dpf = std::move(*dp::DistributedPointFunction::Create(prm));
      const std::string what = F("%d rows of kind %d", n, pattern);
      std::vector<int> up, down, twice;
      for (int i = 0; i < n; ++i) {
        bool edge = i < 4 || i >= n - 4 || i % 128 < 2 || i % 128 > 125 || i % 8 == 7;
        if (n > 300 && !edge && i % 7) continue;
        DenseQuery(s, {i}, n <= 40 || i % 16 == 0 || i == n - 1, what);
        up.push_back(i);
      }
      down.assign(up.rbegin(), up.rend());
      DenseQuery(s, up, false, what);
      DenseQuery(s, down, false, what);
      for (int i = 0; i < n && i < 9; ++i) twice.push_back(n - 1 - i / 2), twice.push_back(i / 3);
      DenseQuery(s, twice, false, what);
      if (n >= 3 && n <= 256)
        for (int i = 0; i < n; i += 1 + n / 24)
          for (int j = 0; j < n; j += 1 + n / 24) DenseQuery(s, {i, j}, false, what);
      // Out of range anywhere in the list.
      for (int bad : {-1, n, n + 1, 127 + n, INT32_MAX, INT32_MIN, -128})
        for (auto& l : std::vector<std::vector<int>>{{bad}, {0, bad}, {bad, 0}, {0, bad, n - 1}}) {
          if (s.client->CreatePlainRequests(l).ok() || s.client->CreateRequest(l).ok()) Fail("range", "%s: index %d accepted", what.c_str(), bad);
          Trans(2);
        }
      if (s.forwarded != (int)s.to_helper.size() || s.sealer.opens != s.forwarded) Fail("forward", "%s", what.c_str());
      Sample(F("%s: every row alone, all rows, pairs, both protocols", what.c_str()));
    }
  // Long rows, and many queries in one request.
  for (auto [n, len, q] : std::vector<std::tuple<int, int, int>>{{5, 1000, 3}, {3, 4097, 2}, {130, 4096, 3}, {9, 65537, 4}, {2, 1 << 20, 1}, {40, 3, 129}, {300, 7, 257}, {17, 5, 1000}, {5000, 3, 5}, {20000, 2, 3}, {70000, 3, 4}, {3, 2, 66000}}) {
    if (!kDeep && n > 300) continue;
    if (!Case(F("dense/scale/n%d/len%d/q%d", n, len, q))) continue;
    R().Reset(n + len);
    Strings rows;
    for (int i = 0; i < n; ++i) {
      std::string r(i % 3 == 1 ? len / 2 : len, 0);
      for (size_t k = 0; k < r.size(); ++k) r[k] = static_cast<char>(Mix(i * 131 + k));
      rows.push_back(r);
    }
    Dense s;
    if (!s.Make(rows)) continue;
    dp::DpfParameters prm;
    int lg = 0;
    while ((1 << lg) < n) ++lg;
    prm.set_log_domain_size(lg);
    prm.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
    s.dpf = std::move(*dp::DistributedPointFunction::Create(prm));
    std::vector<int> l;
    for (int i = 0; i < q; ++i) l.push_back(i == 0 ? n - 1 : i == 1 ? n / 2 : static_cast<int>(Mix(i) % n));
    DenseQuery(s, l, false, F("%d rows of up to %d bytes, %d queries", n, len, q));
    DenseQuery(s, {l[0]}, true, F("%d rows of up to %d bytes", n, len));
  }
  // All index lists of tiny databases.
  for (int n = 1; n <= 4; ++n)
    for (int len = 1; len <= Pick(4, 5); ++len)
      for (int pattern = 0; pattern < kPatterns; ++pattern) {
        if (!Case(F("dense/lists/n%d/len%d/%d", n, len, pattern))) continue;
        R().Reset(n * 100 + len);
        Dense s;
        if (!s.Make(DenseRows(n, pattern))) continue;
        std::vector<int> q(len, 0);
        for (;;) {
          DenseQuery(s, q, false, F("%d rows of kind %d", n, pattern));
          int i = 0;
          while (i < len && ++q[i] == n) q[i++] = 0;
          if (i == len) break;
        }
      }
  // Sizes that do not match.
  for (int n = 1; n <= Pick(20, 40); ++n) {
    if (!Case(F("dense/mismatch/n%d", n))) continue;
    R().Reset(n);
    Dense s;
    if (!s.Make(DenseRows(n, 0))) continue;
    auto lg = [](int x) { int l = 0; while ((1 << l) < x) ++l; return l; };
    std::vector<int> other;
    for (int m = 0; m <= 40; ++m) other.push_back(m);
    for (int m : {127, 128, 129, 255, 256, 257, 1000}) other.push_back(m);
    for (int m : other) {
      Trans(4);
      Trace();
      Sealer x;
      bool ok = m == n;
      auto c = DenseConfig(m);
      if (dp::DenseDpfPirServer::CreatePlain(c, DenseDb(s.rows)).ok() != ok || dp::DenseDpfPirServer::CreateLeader(c, DenseDb(s.rows), s.Sender()).ok() != ok ||
          dp::DenseDpfPirServer::CreateHelper(c, DenseDb(s.rows), x.Decrypter()).ok() != ok)
        Fail("mismatch", "%d rows, configuration for %d", n, m);
      if (m == 0 || lg(m) == lg(n)) continue;
      // A client for a database of another size.
      auto k = dp::DenseDpfPirClient::Create(c, s.sealer.Encrypter());
      if (!k.ok()) { Fail("create", "client for %d rows", m); continue; }
      for (int i : {0, m - 1}) {
        auto r = (*k)->CreatePlainRequests(std::vector<int>{i});
        auto f = (*k)->CreateRequest(std::vector<int>{i});
        if (!r.ok() || !f.ok()) { Fail("request", "%d of %d", i, m); continue; }
        for (auto& p : {std::get<0>(*r), std::get<1>(*r).plain_request()})
          if (s.plain->HandleRequest(PlainOf(p)).ok()) Fail("foreign-request", "request for %d rows answered from %d rows", m, n);
        if (s.leader->HandleRequest(f->first).ok()) Fail("foreign-request", "request for %d rows answered from %d rows", m, n);
      }
    }
  }
  // Clients of databases too large to build: the keys select exactly the row.
  for (int lg = 11; lg <= 62; ++lg)
    for (int64_t d : {-1, 0, 1}) {
      const int64_t n = (int64_t{1} << lg) + d;
      if (!Case(F("dense/large/%lld", (long long)n))) continue;
      R().Reset(lg);
      Sealer x;
      auto k = dp::DenseDpfPirClient::Create(DenseConfig(n), x.Encrypter());
      dp::DpfParameters prm;
      int want_lg = d == 1 ? lg + 1 : lg;
      if (lg > 48) want_lg = -1;  // the documented computation rounds
      if (!k.ok()) { Fail("create", "client for %lld rows", (long long)n); continue; }
      std::set<int64_t> idx = {0, 1, 127, 128, 129, n / 2, n - 2, n - 1, INT32_MAX, INT32_MAX - 1, 1 << 30};
      for (int64_t i : idx) {
        if (i > INT32_MAX) continue;
        auto r = (*k)->CreatePlainRequests(std::vector<int>{(int)i});
        Trans();
        Trace();
        if (r.ok() != (i < n)) { Fail("range", "index %lld of %lld", (long long)i, (long long)n); continue; }
        if (!r.ok() || want_lg < 0) continue;
        prm.set_log_domain_size(want_lg);
        prm.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
        auto dpf = dp::DistributedPointFunction::Create(prm);
        for (int64_t at : {i / 128, i / 128 + 1, i / 128 - 1, i / 256, int64_t{0}}) {
          if (at < 0 || at >= int64_t{1} << want_lg) continue;
          std::vector<absl::uint128> pts = {absl::uint128(at)};
          auto u = (*dpf)->EvaluateAt<dp::XorWrapper<absl::uint128>>(std::get<0>(*r).dpf_key(0), 0, pts);
          auto v = (*dpf)->EvaluateAt<dp::XorWrapper<absl::uint128>>(std::get<1>(*r).plain_request().dpf_key(0), 0, pts);
          if (!u.ok() || !v.ok()) { Fail("key", "%lld of %lld: %s", (long long)i, (long long)n, (u.ok() ? v : u).status().ToString().c_str()); continue; }
          absl::uint128 want = at == i / 128 ? absl::uint128(1) << (i % 128) : absl::uint128(0);
          State(i * 64 + lg);
          if (((*u)[0] + (*v)[0]).value() != want) Fail("large", "index %lld of %lld at block %lld", (long long)i, (long long)n, (long long)at);
        }
      }
    }
}

// ---------------------------------------------------------------- keyword
using KV = std::vector<std::pair<std::string, std::string>>;
Strings Alphabet() {
  return {"a", "b", "ab", std::string("\0", 1), std::string("a\0", 2), "aa", "abc", std::string("\0a", 2), std::string("a\0b", 3), std::string(17, 'a'), std::string(16, 'a')};
}
Strings Foreign() {
  return {"", "c", std::string("\0\0", 2), std::string("b\0", 2), std::string("ab\0", 3), "abcd", "ba", std::string(18, 'a'), std::string(200, 'a'), "\xff", "\x0a\x01\x61"};
}
std::string ValueOf(int kind, int i) {
  switch (kind) {
    case 0: return F("v%d", i);
    case 1: return i % 3 == 0 ? std::string(i ? 0 : 1, 'q') : std::string(i * 7 % 40, char('A' + i));
    default: return std::string(i % 2, '\0') + std::string(3, char(i + 1)) + std::string(i % 3, '\0');
  }
}
template <typename Params>
Params MakeParams(int buckets, int family, const std::string& seed) {
  Params p;
  p.set_num_buckets(buckets);
  p.mutable_hash_family_config()->set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(family));
  p.mutable_hash_family_config()->set_seed(seed);
  return p;
}
using Answers = std::vector<absl::optional<std::string>>;
std::string Show(const Strings& q) {
  std::string s = "[";
  for (size_t i = 0; i < q.size() && i < 6; ++i) s += (i ? "," : "") + Printable(q[i]);
  return s + (q.size() > 6 ? F(",..(%zu)]", q.size()) : "]");
}
template <typename Client>
void KeywordQuery(System& s, const Client& client, const Strings& q, const std::map<std::string, std::string>& want, const std::string& what, const char* sig = nullptr) {
  auto judge = [&](const char* how, const absl::StatusOr<Answers>& r) {
    Trace();
    if (!r.ok()) { Fail(F("%s-status", how), "%s %s: %s", what.c_str(), Show(q).c_str(), r.status().ToString().c_str()); return; }
    if (r->size() != q.size()) { Fail(F("%s-count", how), "%s %s: %zu records", what.c_str(), Show(q).c_str(), r->size()); return; }
    for (size_t i = 0; i < q.size(); ++i) {
      auto it = want.find(q[i]);
      State(Hash((*r)[i].value_or("-"), Hash(q[i])));
      if ((*r)[i].has_value() != (it != want.end())) Fail(sig ? sig : how, "%s: query %s of %s is %s", what.c_str(), Printable(q[i]).c_str(), Show(q).c_str(), it == want.end() ? "not stored, but found" : "stored, but not found");
      else if (it != want.end() && *(*r)[i] != it->second) Fail(sig ? sig : how, "%s: query %s of %s gives %s instead of %s", what.c_str(), Printable(q[i]).c_str(), Show(q).c_str(), Printable(*(*r)[i]).c_str(), Printable(it->second).c_str());
    }
  };
  auto reqs = client.CreatePlainRequests(q);
  if (!reqs.ok()) { Fail("request", "%s %s: %s", what.c_str(), Show(q).c_str(), reqs.status().ToString().c_str()); return; }
  auto& [lr, hr, state] = *reqs;
  auto a = s.plain->HandleRequest(PlainOf(lr)), b = s.plain->HandleRequest(PlainOf(hr.plain_request()));
  Trans(2);
  if (!a.ok() || !b.ok()) Fail("plain-status", "%s %s: %s", what.c_str(), Show(q).c_str(), (a.ok() ? b : a).status().ToString().c_str());
  else {
    // Combine as leader and helper do, with the pad applied by hand.
    Strings pa = Parts(*a), pb = Parts(*b);
    size_t total = 0;
    for (auto& x : pa) total += x.size();
    std::string ks = Keystream(hr.one_time_pad_seed(), total);
    dp::PirResponse r;
    size_t at = 0;
    bool ok = pa.size() == pb.size();
    for (size_t i = 0; ok && i < pa.size(); ++i) {
      ok = pa[i].size() == pb[i].size();
      r.mutable_dpf_pir_response()->add_masked_response(Xor(Xor(pa[i], pb[i]), ks.substr(at, pa[i].size())));
      at += pa[i].size();
    }
    if (!ok) Fail("plain-size", "%s %s", what.c_str(), Show(q).c_str());
    else judge("plain", client.HandleResponse(r, state));
  }
  auto full = client.CreateRequest(q);
  if (!full.ok()) { Fail("request", "%s %s: %s", what.c_str(), Show(q).c_str(), full.status().ToString().c_str()); return; }
  s.order ^= 1;
  auto resp = s.leader->HandleRequest(full->first);
  Trans(3);
  if (!resp.ok()) { Fail("protocol-status", "%s %s: %s", what.c_str(), Show(q).c_str(), resp.status().ToString().c_str()); return; }
  judge("protocol", client.HandleResponse(*resp, full->second));
}
// The client only gets what the server publishes, over the wire.
dp::PirServerPublicParams Wire(const dp::PirServerPublicParams& p) {
  dp::PirServerPublicParams r;
  r.ParseFromString(p.SerializeAsString());
  return r;
}
struct Simple : System {
  std::unique_ptr<dp::SimpleHashingSparseDpfPirClient> client;
  std::unique_ptr<dp::SimpleHashingSparseDpfPirServer::Database> Db(const KV& kv, const dp::SimpleHashingParams& p) {
    dp::SimpleHashedDpfPirDatabase::Builder b;
    b.SetParams(p);
    for (auto& x : kv) b.Insert(x);
    auto d = b.Build();
    if (!d.ok()) { Fail("build", "%s", d.status().ToString().c_str()); return nullptr; }
    if ((*d)->size() != kv.size() || (int)(*d)->num_selection_bits() != p.num_buckets()) Fail("size", "%zu records, %zu bits", (*d)->size(), (*d)->num_selection_bits());
    return std::move(*d);
  }
  bool Make(const KV& kv, const dp::SimpleHashingParams& p) {
    using S = dp::SimpleHashingSparseDpfPirServer;
    auto a = S::CreatePlain(p, Db(kv, p));
    auto h = S::CreateHelper(p, Db(kv, p), sealer.Decrypter());
    auto l = S::CreateLeader(p, Db(kv, p), Sender());
    if (!a.ok() || !h.ok() || !l.ok()) { Fail("create", "%s", (a.ok() ? h.ok() ? l.status() : h.status() : a.status()).ToString().c_str()); return false; }
    plain = std::move(*a), helper = std::move(*h);
    auto k = dp::SimpleHashingSparseDpfPirClient::Create(Wire((*l)->GetPublicParams()), sealer.Encrypter());
    leader = std::move(*l);
    if (!k.ok()) { Fail("create", "client: %s", k.status().ToString().c_str()); return false; }
    client = std::move(*k);
    return true;
  }
};
std::vector<std::vector<int>> Subsets(int n, int max) {
  std::vector<std::vector<int>> r;
  for (int m = 1; m < 1 << n; ++m) {
    if (__builtin_popcount(m) > max && m != (1 << n) - 1) continue;
    std::vector<int> v;
    for (int i = 0; i < n; ++i) if (m >> i & 1) v.push_back(i);
    r.push_back(v);
  }
  return r;
}
std::vector<Strings> QueryLists(const Strings& all, size_t variant) {
  std::vector<Strings> r;
  for (auto& x : all) r.push_back({x});
  r.push_back(all);
  Strings rev(all.rbegin(), all.rend());
  r.push_back(rev);
  Strings rep;
  for (size_t i = 0; i < 5; ++i) rep.push_back(all[(variant * 3 + i / 2 * 5) % all.size()]);
  r.push_back(rep);
  return r;
}
std::string BigKey(int i) {
  std::string s = F("key-%d-", i * 7919);
  return s + std::string(i % 23, char('a' + i % 26)) + "!";
}
// Keys of every length, and all that differ from one in a single byte.
struct Near {
  std::string key, other;  // both stored
  Strings queries;
};
std::vector<std::pair<std::string, Near>> NearKeys() {
  std::vector<std::pair<std::string, Near>> r;
  std::vector<int> lens = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, Pick(10000, 70000)};
  if (Thorough()) for (int l = 1; l <= 260; ++l) lens.push_back(l);
  for (int len : lens) {
    Near n;
    for (int i = 0; i < len; ++i) n.key += char('A' + (i * 7 + i / 50) % 50);
    std::set<int> at = {len - 1, len / 2};
    for (int p : {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536}) if (p < len) at.insert(p), at.insert(len - 1 - p);
    if (len <= Pick(130, 520)) for (int p = 0; p < len; ++p) at.insert(p);
    n.queries = {n.key, n.key.substr(0, len - 1), n.key.substr(0, len / 2), n.key + "x", n.key + n.key, n.key.substr(1)};
    for (int p : at)
      for (int x : {0x01, 0x20, 0x80}) {
        std::string t = n.key;
        t[p] ^= x;
        n.queries.push_back(t);
      }
    for (size_t o : {n.queries.size() - 1, size_t{7}, n.queries.size() / 2}) {
      n.other = n.queries[o];
      r.push_back({F("len%d/%zu", len, o), n});
    }
  }
  return r;
}
template <typename Client>
void NearQueries(System& s, const Client& client, const Near& n, const std::map<std::string, std::string>& want) {
  const size_t chunk = n.key.size() > 600 ? 20 : 50;
  for (size_t i = 0; i < n.queries.size(); i += chunk) {
    Strings q(n.queries.begin() + i, n.queries.begin() + std::min(n.queries.size(), i + chunk));
    q.push_back(n.key), q.push_back(n.other);
    KeywordQuery(s, client, q, want, F("keys of %zu bytes that differ in one", n.key.size()));
  }
}
void RunSimple() {
  for (auto& [name, n] : NearKeys())
    for (int nb : {1, 2}) {
      if (!Case(F("simple/near/%s/b%d", name.c_str(), nb))) continue;
      R().Reset(nb);
      KV kv = {{n.key, "first value"}, {n.other, "other"}};
      if (nb == 2) std::swap(kv[0], kv[1]);
      Simple s;
      if (!s.Make(kv, MakeParams<dp::SimpleHashingParams>(nb, 1, "near"))) continue;
      NearQueries(s, *s.client, n, {kv.begin(), kv.end()});
    }
  const Strings keys = Alphabet();
  Strings all = keys;
  for (auto& f : Foreign()) all.push_back(f);
  int v = 0;
  for (int nb : {1, 2, 3, 5, 129})
    for (int family : {1})
      for (int seed = 0; seed < Pick(3, 8); ++seed) {
        for (auto& sub : Subsets(keys.size(), kDeep ? Pick(4, 6) : 3)) {
          ++v;
          if (!Thorough() && nb > 3 && sub.size() > 2 && sub.size() < 11 && v % 4) continue;
          std::string name;
          for (int i : sub) name += char('a' + i);
          if (!Case(F("simple/b%d/f%d/s%d/%s", nb, family, seed, name.c_str()))) continue;
          R().Reset(v);
          KV kv;
          std::map<std::string, std::string> want;
          for (int i : sub) kv.push_back({keys[i], ValueOf((v + nb) % 3, i)}), want[keys[i]] = kv.back().second;
          if (v % 2) std::reverse(kv.begin(), kv.end());
          Simple s;
          if (!s.Make(kv, MakeParams<dp::SimpleHashingParams>(nb, family, F("seed%d", seed)))) continue;
          for (auto& q : QueryLists(all, v)) KeywordQuery(s, *s.client, q, want, F("%zu records in %d buckets", kv.size(), nb));
          Sample(F("records %s in %d buckets, all queries of the alphabet", name.c_str(), nb));
        }
      }
  // Larger tables, parameters generated by the server.
  for (int n : {20, 60, 200, Pick(300, 2000)})
    for (int nb : {1, 16, 127, 128, 129, 300, 1000, 70000}) {
      if (nb > 1000 && (n != 20 || !kDeep)) continue;
      if (!Case(F("simple/large/n%d/b%d", n, nb))) continue;
      R().Reset(n * nb);
      dp::PirConfig cfg;
      cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(nb);
      cfg.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
      auto prm = dp::SimpleHashingSparseDpfPirServer::GenerateParams(cfg);
      if (!prm.ok() || prm->num_buckets() != nb) { Fail("params", "%d buckets", nb); continue; }
      KV kv;
      std::map<std::string, std::string> want;
      for (int i = 0; i < n; ++i) kv.push_back({BigKey(i), ValueOf(1, i)}), want[kv.back().first] = kv.back().second;
      Simple s;
      if (!s.Make(kv, *prm)) continue;
      Strings q;
      for (int i = 0; i < n; ++i) {
        q.push_back(BigKey(i));
        if (i % 3 == 0) q.push_back(BigKey(i).substr(0, BigKey(i).size() - 1));
        if (i % 3 == 1) q.push_back(BigKey(i + n));
        if (i % 3 == 2) q.push_back(BigKey(i) + "!");
      }
      KeywordQuery(s, *s.client, q, want, F("%d records in %d buckets", n, nb));
      for (size_t i = 0; i < q.size(); i += 1 + q.size() / 20) KeywordQuery(s, *s.client, {q[i]}, want, F("%d records in %d buckets", n, nb));
    }
}
struct Cuckoo : System {
  std::unique_ptr<dp::CuckooHashingSparseDpfPirClient> client;
  bool refused = false;
  std::unique_ptr<dp::CuckooHashingSparseDpfPirServer::Database> Db(const KV& kv, const dp::CuckooHashingParams& p) {
    dp::CuckooHashedDpfPirDatabase::Builder b;
    b.SetParams(p);
    for (auto& x : kv) b.Insert(x);
    C().Restart();  // both servers place the records the same way
    auto d = b.Build();
    if (!d.ok()) { refused = true; return nullptr; }
    if ((*d)->size() != kv.size() || (int)(*d)->num_selection_bits() != p.num_buckets()) Fail("size", "%zu records, %zu bits", (*d)->size(), (*d)->num_selection_bits());
    return std::move(*d);
  }
  bool Make(const KV& kv, const dp::CuckooHashingParams& p) {
    using S = dp::CuckooHashingSparseDpfPirServer;
    auto d1 = Db(kv, p);
    if (refused) return false;
    auto a = S::CreatePlain(p, std::move(d1));
    auto h = S::CreateHelper(p, Db(kv, p), sealer.Decrypter());
    auto l = S::CreateLeader(p, Db(kv, p), Sender());
    if (!a.ok() || !h.ok() || !l.ok()) { Fail("create", "%s", (a.ok() ? h.ok() ? l.status() : h.status() : a.status()).ToString().c_str()); return false; }
    plain = std::move(*a), helper = std::move(*h);
    auto k = dp::CuckooHashingSparseDpfPirClient::Create(Wire((*l)->GetPublicParams()), sealer.Encrypter());
    leader = std::move(*l);
    if (!k.ok()) { Fail("create", "client: %s", k.status().ToString().c_str()); return false; }
    client = std::move(*k);
    return true;
  }
};
std::string Strip(std::string s) {
  while (!s.empty() && s.back() == '\0') s.pop_back();
  return s;
}
// Records and the values a query must give. Values are padded to the longest.
std::map<std::string, std::string> PaddedValues(const KV& kv) {
  size_t max = 0;
  for (auto& x : kv) max = std::max(max, x.second.size());
  std::map<std::string, std::string> want;
  for (auto& x : kv) want[x.first] = x.second + std::string(max - x.second.size(), '\0');
  return want;
}
void RunCuckoo() {
  const Strings base = Alphabet();
  Strings keys, all = base;
  for (auto& f : Foreign()) all.push_back(f);
  // Keys and queries that differ in trailing zero bytes only are told apart by
  // separate cases below; all others here.
  for (auto& k : base) if (!Strip(k).empty() && Strip(k) == k) keys.push_back(k);
  int v = 0;
  for (int nb : {1, 2, 3, 4, 6, 129})
    for (int k : {1, 2, 3, 4}) {
      if (k == 4 && nb > 4) continue;
      for (int seed = 0; seed < Pick(5, 16); ++seed) {
        for (auto& sub : Subsets(keys.size(), Pick(4, 6))) {
          ++v;
          if ((int)sub.size() > nb) { if (v % 5) continue; }
          std::string name;
          for (int i : sub) name += char('a' + i);
          if (!Case(F("cuckoo/b%d/k%d/s%d/%s", nb, k, seed, name.c_str()))) continue;
          R().Reset(v);
          KV kv;
          for (int i : sub) kv.push_back({keys[i], ValueOf((v + nb) % 3, i)});
          if (v % 2) std::reverse(kv.begin(), kv.end());
          bool some = false;
          for (auto& x : kv) some |= !x.second.empty();
          if (!some) kv[0].second = "z";
          auto want = PaddedValues(kv);
          Strings q;
          for (auto& x : all) {
            bool ambiguous = !x.empty() && Strip(x).empty();
            for (auto& y : kv) ambiguous |= x != y.first && Strip(x) == Strip(y.first);
            if (!ambiguous) q.push_back(x);
          }
          auto prm = MakeParams<dp::CuckooHashingParams>(nb, 1, F("seed%d", seed));
          prm.set_num_hash_functions(k);
          C() = Choices();
          C().arity = k;
          int built = 0, refused = 0, runs = 0;
          do {
            C().Restart();
            Cuckoo s;
            bool ok = s.Make(kv, prm);
            ++runs;
            if (s.refused) {
              ++refused;
              Trace();
              if (k > 1 && (kv.size() == 1 || nb > 100)) Fail("refused", "%zu records in %d buckets by %d functions", kv.size(), nb, k);
              continue;
            }
            if (!ok) break;
            ++built;
            if ((int)kv.size() > nb) { Fail("overfull", "%zu records in %d buckets", kv.size(), nb); break; }
            if (built > 12) { KeywordQuery(s, *s.client, q, want, F("%zu records in %d buckets, %d functions", kv.size(), nb, k)); continue; }
            for (auto& l : QueryLists(q, v)) KeywordQuery(s, *s.client, l, want, F("%zu records in %d buckets, %d functions", kv.size(), nb, k));
          } while (C().Next() && runs < Pick(200, 2000));
          Count("databases", built);
          Count("refused", refused);
          Sample(F("records %s in %d buckets by %d functions: %d placements, %d refusals", name.c_str(), nb, k, built, refused));
        }
      }
    }
  for (int n : {1, 2, 3, 5, 20, 100, Pick(200, 1000)})
    for (int seed = 0; seed < Pick(4, 20); ++seed)
      for (int family : {1}) {
        if (!Case(F("cuckoo/large/n%d/s%d/f%d", n, seed, family))) continue;
        R().Reset(n * 10 + seed);
        dp::PirConfig cfg;
        cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n);
        cfg.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(family));
        auto prm = dp::CuckooHashingSparseDpfPirServer::GenerateParams(cfg);
        if (!prm.ok() || prm->num_buckets() < n) { Fail("params", "%d elements", n); continue; }
        KV kv;
        for (int i = 0; i < n; ++i) kv.push_back({BigKey(i), ValueOf(1, i)});
        C() = Choices();
        C().arity = prm->num_hash_functions();
        C().pseudo = true;
        Cuckoo s;
        if (!s.Make(kv, *prm)) { if (s.refused) Count("refused"); continue; }
        auto want = PaddedValues(kv);
        Strings q;
        for (int i = 0; i < n; ++i) {
          q.push_back(BigKey(i));
          if (i % 3 == 0) q.push_back(BigKey(i).substr(0, BigKey(i).size() - 1));
          if (i % 3 == 1) q.push_back(BigKey(i + n));
          if (i % 3 == 2) q.push_back(BigKey(i) + "!");
        }
        KeywordQuery(s, *s.client, q, want, F("%d records", n));
        for (size_t i = 0; i < q.size(); i += 1 + q.size() / 20) KeywordQuery(s, *s.client, {q[i]}, want, F("%d records", n));
        Count("databases");
      }
  // Far more buckets than records.
  for (int nb : {4097, 65537, 70001, Pick(131073, 1100000)})
    for (int k : {2, 3, 5}) {
      if (!kDeep || !Case(F("cuckoo/wide/b%d/k%d", nb, k))) continue;
      R().Reset(k);
      KV kv;
      for (int i = 0; i < 40; ++i) kv.push_back({BigKey(i), ValueOf(1, i)});
      auto prm = MakeParams<dp::CuckooHashingParams>(nb, 1, "wide");
      prm.set_num_hash_functions(k);
      C() = Choices();
      C().arity = k;
      C().pseudo = true;
      Cuckoo s;
      if (!s.Make(kv, prm)) { Fail("refused", "40 records in %d buckets", nb); continue; }
      Strings q;
      for (int i = 0; i < 44; ++i) q.push_back(BigKey(i));
      KeywordQuery(s, *s.client, q, PaddedValues(kv), F("40 records in %d buckets", nb));
    }
  for (auto& [name, n] : NearKeys())
    for (int k : {2, 3}) {
      if (!Case(F("cuckoo/near/%s/k%d", name.c_str(), k))) continue;
      R().Reset(k);
      KV kv = {{n.key, "first value"}};
      if (k == 3) kv.push_back({n.other, "other"});
      Near m = n;
      if (k == 2) m.other = n.key;
      auto prm = MakeParams<dp::CuckooHashingParams>(k == 2 ? 1 : 3, 1, "near");
      prm.set_num_hash_functions(k);
      C() = Choices();
      C().arity = k;
      C().pseudo = true;
      Cuckoo s;
      if (!s.Make(kv, prm)) { if (s.refused && k == 2) Fail("refused", "one record"); continue; }
      NearQueries(s, *s.client, m, PaddedValues(kv));
    }
  // Keys or queries equal up to trailing zero bytes.
  struct Z { const char* name; Strings stored; std::string query; };
  const std::string z0("\0", 1), a0("a\0", 2), a00("a\0\0", 3);
  for (auto& z : std::vector<Z>{{"longer-query", {"a"}, a0}, {"shorter-query", {a0}, "a"}, {"both-stored-short", {"a", a0}, "a"}, {"both-stored-long", {"a", a0}, a0},
                                {"zero-query", {"a"}, z0}, {"two-more", {"a", "longer"}, a00}})
    for (int k : {2, 3}) {
      if (!Case(F("cuckoo/zero-extension/%s/k%d", z.name, k))) continue;
      R().Reset(k);
      KV kv;
      // Another, longer key so that stored keys are padded.
      for (auto& x : z.stored) kv.push_back({x, "value of " + Printable(x)});
      kv.push_back({"other key", "x"});
      auto prm = MakeParams<dp::CuckooHashingParams>(3, 1, "s");
      prm.set_num_hash_functions(k);
      C() = Choices();
      C().arity = k;
      do {
        C().Restart();
        Cuckoo s;
        if (!s.Make(kv, prm)) { if (!s.refused) break; continue; }
        KeywordQuery(s, *s.client, {z.query}, PaddedValues(kv), z.name, "zero-extension");
      } while (C().Next());
    }
}

}  // namespace
void VpRun() {
  if (Mode("dense")) RunDense();
  if (Mode("simple")) RunSimple();
  if (Mode("cuckoo")) RunCuckoo();
}
