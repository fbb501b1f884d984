// P21: the leader/helper protocol under every combination of server role,
// request kind, fault and order of local and remote completion.
#include <thread>

#include "pir_common.h"
using namespace vp;

namespace {
using Role = dp::DpfPirServer::Role;
using Sizes = std::vector<int>;

// What the server's local work answers.
struct Local {
  bool ok = true;
  Sizes sizes;
  int salt = 0;
};
dp::PirResponse Response(const Sizes& sizes, int salt) {
  dp::PirResponse r;
  r.mutable_dpf_pir_response();
  for (size_t i = 0; i < sizes.size(); ++i) {
    std::string s;
    for (int k = 0; k < sizes[i]; ++k) s += char(Mix(salt * 1000 + i * 50 + k) >> 7);
    r.mutable_dpf_pir_response()->add_masked_response(s);
  }
  return r;
}
class Server : public dp::DpfPirServer {
 public:
  using dp::DpfPirServer::MakeHelper;
  using dp::DpfPirServer::MakeLeader;
  Server() {}
  const dp::PirServerPublicParams& GetPublicParams() const override { return dp::PirServerPublicParams::default_instance(); }
  mutable std::vector<std::string> seen;  // plain requests, serialized
  Local local;

 protected:
  absl::StatusOr<dp::PirResponse> HandlePlainRequest(const dp::PirRequest& r) const override {
    seen.push_back(r.SerializeAsString());
    if (r.dpf_pir_request().wrapped_request_case() != dp::DpfPirRequest::kPlainRequest) return absl::InvalidArgumentError("not a plain request");
    if (!local.ok) return absl::ResourceExhaustedError("local");
    return Response(local.sizes, local.salt);
  }
};

enum Kind { kNone, kDpfEmpty, kPlain, kLeader, kLeaderNoPlain, kLeaderNoHelper, kLeaderEmpty, kEncrypted, kKinds };
const char* kKindNames[] = {"none", "empty", "plain", "leader", "leader-no-plain", "leader-no-helper", "leader-empty", "encrypted"};
PlainRequest MakePlain(int salt) {
  PlainRequest p;
  p.set_seed_fingerprint(100 + salt);
  p.add_dpf_key()->set_party(salt & 1);
  p.mutable_dpf_key(0)->mutable_seed()->set_low(salt * 3 + 1);
  return p;
}
dp::PirRequest MakeRequest(int kind, int salt, const std::string& cipher) {
  dp::PirRequest r;
  switch (kind) {
    case kDpfEmpty: r.mutable_dpf_pir_request(); break;
    case kPlain: *r.mutable_dpf_pir_request()->mutable_plain_request() = MakePlain(salt); break;
    case kLeader:
    case kLeaderNoPlain:
    case kLeaderNoHelper:
    case kLeaderEmpty: {
      auto* l = r.mutable_dpf_pir_request()->mutable_leader_request();
      if (kind == kLeader || kind == kLeaderNoHelper) *l->mutable_plain_request() = MakePlain(salt);
      if (kind == kLeader || kind == kLeaderNoPlain) l->mutable_encrypted_helper_request()->set_encrypted_request(cipher);
      break;
    }
    case kEncrypted: r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(cipher); break;
  }
  return r;
}

// ----------------------------------------------------------------- leader
// When the sender runs the leader's local work: never, before or after it
// talks to the helper, twice, or in another thread.
enum When { kNever, kBefore, kAfter, kTwice, kThread, kWhens };
enum Remote { kStatus, kUnset, kSized };
struct RemoteAnswer {
  Remote kind;
  int status = 0;
  Sizes sizes;
};
struct LeaderStep {
  int kind;
  int when;
  RemoteAnswer remote;
  Local local;
};
struct LeaderRig {
  Server server;
  LeaderStep step;
  int salt = 0, sent = 0, plain_during_send = 0;
  std::string sent_bytes;
  LeaderRig() {
    auto s = server.MakeLeader([this](const dp::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
      ++sent;
      sent_bytes = r.SerializeAsString();
      if (step.when == kBefore) w();
      if (step.when == kTwice) w(), w();
      if (step.when == kThread) std::thread([&] { w(); }).join();
      absl::StatusOr<dp::PirResponse> a = dp::PirResponse();
      if (step.remote.kind == kStatus) a = absl::Status(static_cast<absl::StatusCode>(step.remote.status), "remote");
      if (step.remote.kind == kSized) a = Response(step.remote.sizes, salt + 5000);
      if (step.when == kAfter) w();
      return a;
    });
    if (!s.ok()) Fail("make", "%s", s.ToString().c_str());
  }
};
std::string Show(const Sizes& s) {
  std::string r = "(";
  for (int x : s) r += F("%d ", x);
  return r + ")";
}
std::string Show(const LeaderStep& s) {
  static const char* w[] = {"never", "before", "after", "twice", "in a thread"};
  return F("%s request, local work %s answering %s, helper %s", kKindNames[s.kind], w[s.when], s.local.ok ? Show(s.local.sizes).c_str() : "error",
           s.remote.kind == kStatus ? F("status %d", s.remote.status).c_str() : s.remote.kind == kUnset ? "nothing" : Show(s.remote.sizes).c_str());
}
std::string CipherOf(int salt) { return F("cipher-%d", salt); }
void RunStep(LeaderRig& rig, const LeaderStep& st, int salt, const std::string& before) {
  rig.step = st;
  rig.salt = salt;
  rig.sent = 0;
  rig.sent_bytes.clear();
  rig.server.seen.clear();
  rig.server.local = st.local;
  rig.server.local.salt = salt;
  const dp::PirRequest req = MakeRequest(st.kind, salt, CipherOf(salt));
  const std::string keep = req.SerializeAsString();
  auto r = rig.server.HandleRequest(req);
  Trans();
  const std::string what = before + Show(st);
  if (req.SerializeAsString() != keep) Fail("request-changed", "%s", what.c_str());
  if (st.kind != kLeader) {
    if (r.ok()) Fail("wrong-kind", "%s: answered", what.c_str());
    if (rig.sent || !rig.server.seen.empty()) Fail("wrong-kind-work", "%s: %d sent, %zu local", what.c_str(), rig.sent, rig.server.seen.size());
    State(st.kind);
    return;
  }
  if (rig.sent != 1) Fail("sent", "%s: %d requests to the helper", what.c_str(), rig.sent);
  if (rig.sent_bytes != MakeRequest(kEncrypted, salt, CipherOf(salt)).SerializeAsString()) Fail("forwarded", "%s: helper request differs", what.c_str());
  for (auto& p : rig.server.seen)
    if (p != MakeRequest(kPlain, salt, "").SerializeAsString()) Fail("local-request", "%s: local request differs", what.c_str());
  size_t runs = st.when == kNever ? 0 : st.when == kTwice ? 2 : 1;
  if (rig.server.seen.size() != runs && !(st.when == kTwice && rig.server.seen.size() == 1)) Fail("local-runs", "%s: local work ran %zu times", what.c_str(), rig.server.seen.size());
  bool both_empty = st.remote.kind == kUnset && st.local.ok && st.local.sizes.empty();
  bool ok = st.when != kNever && st.local.ok && (st.remote.kind == kSized ? st.remote.sizes == st.local.sizes : both_empty);
  State(Hash(what));
  if (both_empty) return;  // nothing asked, nothing answered
  if (r.ok() != ok) {
    Fail(ok ? "refused" : "accepted", "%s: %s", what.c_str(), r.ok() ? "answered" : r.status().ToString().c_str());
    return;
  }
  if (!ok) return;
  auto a = Parts(*r), l = Parts(Response(st.local.sizes, salt)), h = Parts(Response(st.remote.sizes, salt + 5000));
  if (a.size() != l.size()) { Fail("count", "%s", what.c_str()); return; }
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != Xor(l[i], h[i])) Fail("combine", "%s: response %zu", what.c_str(), i);
}
std::vector<Sizes> SizeSets() {
  std::vector<Sizes> r = {{}, {0}, {1}, {3}, {16}, {40}, {3, 3}, {3, 0}, {0, 3}, {3, 5}, {5, 3}, {3, 5, 7}, {3, 7, 5}, {8, 8, 8}, {1, 1, 1, 1}};
  return r;
}
std::vector<LeaderStep> LeaderSteps(bool all) {
  std::vector<LeaderStep> v;
  std::vector<RemoteAnswer> remotes;
  for (int s = 1; s <= 16; ++s) if (all || s == 1 || s == 14) remotes.push_back({kStatus, s, {}});
  remotes.push_back({kUnset, 0, {}});
  std::vector<Sizes> sizes = SizeSets();
  if (!all) sizes = {{}, {3}, {3, 5}, {5, 3}, {3, 0}};
  for (auto& s : sizes) remotes.push_back({kSized, 0, s});
  std::vector<Local> locals = {{false, {}, 0}};
  for (auto& s : sizes) locals.push_back({true, s, 0});
  for (int when = 0; when < kWhens; ++when) {
    if (!all && when == kThread) continue;
    for (auto& r : remotes)
      for (auto& l : locals) v.push_back({kLeader, when, r, l});
  }
  for (int k = 0; k < kKinds; ++k)
    if (k != kLeader) v.push_back({k, kBefore, {kSized, 0, {3}}, {true, {3}, 0}});
  return v;
}

// ----------------------------------------------------------------- helper
enum Inner { kFail, kGarbage, kValid, kNoPlain, kInners };
struct HelperStep {
  int kind, inner;
  int seed_len;
  Local local;
};
std::string Show(const HelperStep& s) {
  static const char* in[] = {"decryption fails", "garbage", "valid", "valid without plain request"};
  return F("%s request, %s, seed of %d bytes, local work answering %s", kKindNames[s.kind], in[s.inner], s.seed_len, s.local.ok ? Show(s.local.sizes).c_str() : "error");
}
struct HelperRig {
  Server server;
  HelperStep step;
  std::string ctx, seed;
  int salt = 0, opened = 0;
  std::string saw_cipher, saw_ctx;
  explicit HelperRig(int ctx_len) {
    for (int i = 0; i < ctx_len; ++i) ctx += char('A' + i % 26);
    // The caller's copy does not outlive the call.
    auto temp = std::make_unique<std::string>(ctx);
    auto s = server.MakeHelper(
        [this](absl::string_view c, absl::string_view x) -> absl::StatusOr<std::string> {
          ++opened;
          saw_cipher = std::string(c);
          saw_ctx = std::string(x);
          switch (step.inner) {
            case kFail: return absl::UnauthenticatedError("decrypt");
            case kGarbage: return std::string("\xff\xff\xff\xff\xff");
          }
          HelperRequest h;
          if (step.inner == kValid) *h.mutable_plain_request() = MakePlain(salt);
          h.set_one_time_pad_seed(seed);
          return h.SerializeAsString();
        },
        *temp);
    for (auto& ch : *temp) ch = '?';
    temp.reset();
    if (!s.ok()) Fail("make", "%s", s.ToString().c_str());
  }
};
void RunStep(HelperRig& rig, const HelperStep& st, int salt, const std::string& before) {
  rig.step = st;
  rig.salt = salt;
  rig.opened = 0;
  rig.server.seen.clear();
  rig.server.local = st.local;
  rig.server.local.salt = salt;
  rig.seed.clear();
  for (int i = 0; i < st.seed_len; ++i) rig.seed += char(Mix(salt * 77 + i) >> 9);
  const dp::PirRequest req = MakeRequest(st.kind, salt, CipherOf(salt));
  auto r = rig.server.HandleRequest(req);
  Trans();
  const std::string what = before + Show(st);
  State(Hash(what));
  if (st.kind != kEncrypted) {
    if (r.ok()) Fail("wrong-kind", "%s: answered", what.c_str());
    if (rig.opened || !rig.server.seen.empty()) Fail("wrong-kind-work", "%s", what.c_str());
    return;
  }
  if (rig.opened != 1) Fail("opened", "%s: decrypted %d times", what.c_str(), rig.opened);
  if (rig.saw_cipher != CipherOf(salt)) Fail("cipher", "%s", what.c_str());
  if (rig.saw_ctx != rig.ctx) Fail("context", "%s: context %s", what.c_str(), Printable(rig.saw_ctx).c_str());
  for (auto& p : rig.server.seen)
    if (st.inner != kNoPlain && p != MakeRequest(kPlain, salt, "").SerializeAsString()) Fail("local-request", "%s: local request differs", what.c_str());
  if (st.inner == kNoPlain) return;  // an empty plain request; up to the server
  bool ok = st.inner == kValid && st.local.ok && st.seed_len == 16;
  if (r.ok() != ok) {
    Fail(ok ? "refused" : "accepted", "%s: %s", what.c_str(), r.ok() ? "answered" : r.status().ToString().c_str());
    return;
  }
  if (!ok) return;
  auto a = Parts(*r), l = Parts(Response(st.local.sizes, salt));
  if (a.size() != l.size()) { Fail("count", "%s", what.c_str()); return; }
  size_t total = 0, at = 0;
  for (auto& x : l) total += x.size();
  std::string ks = Keystream(rig.seed, total);
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] != Xor(l[i], ks.substr(at, l[i].size()))) Fail("mask", "%s: response %zu", what.c_str(), i);
    at += l[i].size();
  }
}
std::vector<HelperStep> HelperSteps(bool all) {
  std::vector<HelperStep> v;
  std::vector<Local> locals = {{false, {}, 0}};
  auto sizes = SizeSets();
  if (all) sizes.push_back({100, 1, 300}), sizes.push_back({16, 16, 16});
  for (auto& s : sizes)
    if (all || s.size() > 1) locals.push_back({true, s, 0});
  for (int inner = 0; inner < kInners; ++inner)
    for (int len : {0, 1, 15, 16, 17, 32}) {
      if (!all && (len == 1 || len == 32)) continue;
      for (auto& l : locals) v.push_back({kEncrypted, inner, len, l});
    }
  for (int k = 0; k < kKinds; ++k)
    if (k != kEncrypted) v.push_back({k, kValid, 16, {true, {3}, 0}});
  return v;
}

template <typename Rig, typename Step, typename Make>
void Sequences(const char* name, const std::vector<Step>& wide, const std::vector<Step>& narrow, Make make) {
  // Every step alone, then every pair of steps and triples around each step on one server.
  for (size_t i = 0; i < wide.size(); i += 50) {
    if (!Case(F("%s/alone/%zu", name, i))) continue;
    for (size_t k = i; k < wide.size() && k < i + 50; ++k) {
      auto rig = make();
      RunStep(*rig, wide[k], k, "");
      RunStep(*rig, wide[k], k + 1, "again: ");
      Trace();
    }
    Sample(F("%s: %s", name, Show(wide[i]).c_str()));
  }
  for (size_t i = 0; i < narrow.size(); ++i) {
    if (!Case(F("%s/pairs/%zu", name, i))) continue;
    auto rig = make();
    for (size_t k = 0; k < narrow.size(); ++k) {
      // On one server: first step i, then step k, over and over.
      const std::string after = "after " + Show(narrow[i]) + ": ";
      RunStep(*rig, narrow[i], 2 * k, "");
      RunStep(*rig, narrow[k], 2 * k + 1, after);
      if (Thorough()) {
        auto fresh = make();
        RunStep(*fresh, narrow[i], 2 * k, "");
        RunStep(*fresh, narrow[k], 2 * k + 1, after);
        for (size_t m = k % 7; m < narrow.size(); m += 7) {
          RunStep(*fresh, narrow[m], 2 * k + m, after + Show(narrow[k]) + ": ");
          Trace();
        }
      }
      Trace();
    }
  }
}
void Contexts() {
  for (int len : {0, 1, 15, 16, 40, 1000}) {
    if (!Case(F("context/%d", len))) continue;
    HelperRig rig(len);
    for (int k = 0; k < 3; ++k) RunStep(rig, {kEncrypted, kValid, 16, {true, {5, 20}, 0}}, k, F("context of %d bytes: ", len));
    Trace();
  }
}
void Roles() {
  // Plain servers, and servers whose role is set more than once.
  for (int role = 0; role < 7; ++role)
    for (int kind = 0; kind < kKinds; ++kind) {
      if (!Case(F("roles/%d/%s", role, kKindNames[kind]))) continue;
      Server s;
      s.local = {true, {3, 4}, 9};
      int sent = 0, opened = 0;
      std::string ctx;
      auto lead = [&] {
        return s.MakeLeader([&](const dp::PirRequest&, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
          ++sent;
          w();
          return Response({3, 4}, 10);
        });
      };
      auto help = [&](const char* c) {
        return s.MakeHelper([&](absl::string_view, absl::string_view x) -> absl::StatusOr<std::string> {
          ++opened;
          ctx = std::string(x);
          HelperRequest h;
          *h.mutable_plain_request() = MakePlain(1);
          h.set_one_time_pad_seed(std::string(16, 's'));
          return h.SerializeAsString();
        }, c);
      };
      Role want = Role::kPlain;
      if (role == 1 && !lead().ok()) Fail("make", "leader");
      if (role == 2 && !help("one").ok()) Fail("make", "helper");
      if (role == 3 && !(help("one").ok() && lead().ok())) Fail("make", "helper then leader");
      if (role == 4 && !(lead().ok() && help("two").ok())) Fail("make", "leader then helper");
      // Refused configurations leave the server as it was.
      if (role == 5 && (s.MakeLeader(nullptr).ok() || s.MakeHelper(nullptr, "x").ok())) Fail("null", "accepted");
      if (role == 6) { if (!lead().ok() || s.MakeHelper(nullptr, "x").ok() || s.MakeLeader(nullptr).ok()) Fail("null", "accepted"); }
      if (role == 1 || role == 3 || role == 6) want = Role::kLeader;
      if (role == 2 || role == 4) want = Role::kHelper;
      if (s.role() != want) Fail("role", "role %d", (int)s.role());
      for (int again = 0; again < 3; ++again) {
        sent = opened = 0;
        auto r = s.HandleRequest(MakeRequest(kind, 1, "c"));
        Trans();
        Trace();
        State(role * 100 + kind);
        bool ok = (want == Role::kPlain && kind == kPlain) || (want == Role::kLeader && kind == kLeader) || (want == Role::kHelper && kind == kEncrypted);
        if (r.ok() != ok) Fail("role-kind", "role %d, %s request: %s", (int)want, kKindNames[kind], r.ok() ? "answered" : r.status().ToString().c_str());
        if (sent != (ok && want == Role::kLeader) || opened != (ok && want == Role::kHelper)) Fail("role-work", "role %d, %s request: %d sent, %d opened", (int)want, kKindNames[kind], sent, opened);
        if (want == Role::kHelper && ok && ctx != (role == 2 ? "one" : "two")) Fail("context", "%s", ctx.c_str());
      }
    }
}

// Real dense servers with a link that damages one message.
void Link() {
  auto db = [](int n, int len) {
    dp::DenseDpfPirDatabase::Builder b;
    for (int i = 0; i < n; ++i) b.Insert(std::string(len, char('a' + i)));
    return std::move(*b.Build());
  };
  enum Damage { kNothing, kDrop, kLose, kShort, kLong, kExtra, kFewer, kSwapReply, kStale, kPlainReply, kTampered, kNoLocal, kDamages };
  static const char* names[] = {"nothing", "status", "empty reply", "shorter record", "longer record", "extra record", "missing record", "leader kind to helper", "stale reply of other size", "plain request", "damaged ciphertext", "no local work"};
  for (int n : {1, 3, 130})
    for (int nq = 1; nq <= 4; ++nq)
      for (int len : {1, 16, 33})
        for (int first = 0; first < kDamages; ++first) {
          if (!Case(F("link/n%d/q%d/len%d/%d", n, nq, len, first))) continue;
          R().Reset(n + nq);
          Sealer sealer;
          dp::PirConfig c;
          c.mutable_dense_dpf_pir_config()->set_num_elements(n);
          auto helper = std::move(*dp::DenseDpfPirServer::CreateHelper(c, db(n, len), sealer.Decrypter()));
          int damage = 0, order = 0;
          auto leader = std::move(*dp::DenseDpfPirServer::CreateLeader(c, db(n, len), [&](const dp::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
            if (order == 0 && damage != kNoLocal) w();
            dp::PirRequest q = r;
            if (damage == kSwapReply) *q.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request() = r.dpf_pir_request().encrypted_helper_request();
            if (damage == kPlainReply) q.mutable_dpf_pir_request()->mutable_plain_request();
            if (damage == kTampered) q.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->mutable_encrypted_request()->append("x");
            auto a = helper->HandleRequest(q);
            if (order == 1 && damage != kNoLocal) w();
            if (!a.ok()) return a;
            auto* m = a->mutable_dpf_pir_response()->mutable_masked_response();
            switch (damage) {
              case kDrop: return absl::UnavailableError("link");
              case kLose: return dp::PirResponse();
              case kShort: m->Mutable(m->size() - 1)->pop_back(); break;
              case kLong: m->Mutable(0)->push_back('x'); break;
              case kExtra: *m->Add() = std::string(len, 'x'); break;
              case kFewer: m->RemoveLast(); break;
              case kStale: m->Clear(); for (int i = 0; i <= nq; ++i) *m->Add() = std::string(len, 's'); break;
            }
            return a;
          }));
          auto client = std::move(*dp::DenseDpfPirClient::Create(c, sealer.Encrypter()));
          for (int second = 0; second < kDamages; ++second)
            for (int o = 0; o < 2; ++o) {
              int dm[] = {first, second, kNothing};
              for (int k = 0; k < 3; ++k) {
                damage = dm[k];
                order = o;
                std::vector<int> q;
                for (int i = 0; i < nq; ++i) q.push_back((i * 5 + k) % n);
                auto req = client->CreateRequest(q);
                auto resp = leader->HandleRequest(req->first);
                Trans();
                const std::string what = F("%d rows of %d, %d queries, damage %s (before: %s)", n, len, nq, names[damage], names[first]);
                State(Hash(what, o));
                if (resp.ok() != (damage == kNothing)) { Fail(resp.ok() ? "link-accepted" : "link-refused", "%s: %s", what.c_str(), resp.ok() ? "answered" : resp.status().ToString().c_str()); continue; }
                if (!resp.ok()) continue;
                auto got = client->HandleResponse(*resp, req->second);
                Trace();
                if (!got.ok() || got->size() != q.size()) { Fail("link-response", "%s", what.c_str()); continue; }
                for (int i = 0; i < nq; ++i)
                  if ((*got)[i] != std::string(len, char('a' + q[i]))) Fail("link-record", "%s: record %d", what.c_str(), i);
              }
            }
        }
}
}  // namespace
void VpRun() {
  Roles();
  Contexts();
  Sequences<LeaderRig>("leader", LeaderSteps(true), LeaderSteps(false), [] { return std::make_unique<LeaderRig>(); });
  Sequences<HelperRig>("helper", HelperSteps(true), HelperSteps(false), [] { return std::make_unique<HelperRig>(21); });
  Link();
}
