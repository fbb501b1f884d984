// P30: batches given as objects or as pointers.
#include <array>
#include <memory>

#include "absl/container/inlined_vector.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf_ops.h"
#include "dpf/internal/maybe_deref_span.h"
#include "hier.h"
#include "lookalike.h"
#include "vp_rand.h"
using namespace vp;
namespace fg = dp::fss_gates;

namespace {
template <typename T>
using View = dp::dpf_internal::MaybeDerefSpan<T>;

// Counts what is done to it; cannot be copied.
struct Solid {
  int v = 0;
  Solid() = default;
  Solid(Solid&& o) : v(o.v) {}
  Solid(const Solid&) = delete;
  Solid& operator=(const Solid&) = delete;
};
template <typename T> void Put(T& t, int i) { t = T(i * 3 + 1); }
void Put(std::string& t, int i) { t = F("object %d of the batch, long enough to live on the heap", i); }
void Put(Solid& t, int i) { t.v = i * 3 + 1; }
void Put(dp::DpfKey& t, int i) { t.mutable_seed()->set_low(i + 1); t.add_correction_words()->mutable_seed()->set_high(i); }
template <typename T> std::string Bytes(const T& t) { return F("%lld", (long long)t); }
std::string Bytes(const std::string& t) { return t; }
std::string Bytes(const Solid& t) { return F("%d", t.v); }
std::string Bytes(const dp::DpfKey& t) { return t.SerializeAsString(); }

// The orders in which n objects are pointed to.
std::vector<std::vector<int>> Orders(int n) {
  std::vector<std::vector<int>> r;
  std::vector<int> id(n), rev(n), same(n, n ? n - 1 : 0), rot(n), pairs(n);
  for (int i = 0; i < n; ++i) id[i] = i, rev[i] = n - 1 - i, rot[i] = (i + 1) % n, pairs[i] = i / 2;
  return {id, rev, same, rot, pairs};
}
template <typename T>
struct Objects {
  std::vector<T> v;
  std::vector<std::string> before;
  explicit Objects(int n) : v(n) {
    for (int i = 0; i < n; ++i) Put(v[i], i), before.push_back(Bytes(v[i]));
  }
  void Check(const std::string& what) {
    for (size_t i = 0; i < v.size(); ++i)
      if (Bytes(v[i]) != before[i]) Fail("modified", "%s: object %zu", what.c_str(), i);
  }
};
template <typename T>
void Same(const View<T>& view, const std::vector<const std::remove_const_t<T>*>& want, const std::string& what) {
  Trace();
  if (view.size() != want.size()) { Fail("size", "%s: %zu instead of %zu", what.c_str(), view.size(), want.size()); return; }
  // In order, backwards, and each again.
  for (size_t i = 0; i < want.size(); ++i)
    if (&view[i] != want[i]) Fail("element", "%s: index %zu is another object", what.c_str(), i);
  for (size_t i = want.size(); i-- > 0;)
    if (&view[i] != want[i]) Fail("element-again", "%s: index %zu is another object", what.c_str(), i);
  Trans(want.size() * 2 + 1);
}
// Every way to make a view of the objects.
constexpr int kForms = 14;
template <typename T, typename Use>
void WithForm(int form, Objects<T>& o, const std::vector<int>& order, Use use) {
  const size_t n = o.v.size();
  std::vector<T*> ptr;
  std::vector<const T*> cptr;
  std::vector<const T*> direct, pointed;
  for (size_t i = 0; i < n; ++i) direct.push_back(&o.v[i]), pointed.push_back(&o.v[order[i]]), ptr.push_back(&o.v[order[i]]), cptr.push_back(&o.v[order[i]]);
  const auto keep = cptr;
  switch (form) {
    case 0: use(View<const T>(absl::Span<const T>(o.v)), direct); break;
    case 1: use(View<const T>(o.v), direct); break;
    case 2: { const std::vector<T>& c = o.v; use(View<const T>(c), direct); break; }
    case 3: use(View<const T>(absl::MakeSpan(o.v)), direct); break;
    case 4: use(View<const T>(View<T>(absl::MakeSpan(o.v))), direct); break;
    case 5: use(View<const T>(absl::Span<const T* const>(cptr)), pointed); break;
    case 6: use(View<const T>(cptr), pointed); break;
    case 7: { const auto& c = cptr; use(View<const T>(c), pointed); break; }
    case 8: use(View<const T>(absl::MakeSpan(cptr)), pointed); break;
    case 9: use(View<const T>(absl::MakeConstSpan(cptr)), pointed); break;
    case 10: { absl::InlinedVector<const T*, 2> iv(cptr.begin(), cptr.end()); use(View<const T>(iv), pointed); break; }
    case 11: {  // part of a larger sequence
      std::vector<const T*> big = {nullptr};
      big.insert(big.end(), cptr.begin(), cptr.end());
      big.push_back(nullptr);
      use(View<const T>(absl::MakeConstSpan(big).subspan(1, n)), pointed);
      break;
    }
    case 12: { auto s = absl::MakeConstSpan(o.v).subspan(n / 2); use(View<const T>(s), std::vector<const T*>(direct.begin() + n / 2, direct.end())); break; }
    case 13: { auto s = absl::MakeConstSpan(o.v).subspan(0, n / 2); use(View<const T>(s), std::vector<const T*>(direct.begin(), direct.begin() + n / 2)); break; }
  }
  if (keep != cptr) Fail("pointers-modified", "form %d", form);
}
template <typename T>
void RunViews(const char* name) {
  std::vector<int> ns;
  for (int n = 0; n <= Pick(9, 40); ++n) ns.push_back(n);
  ns.insert(ns.end(), {255, 256, 257});
  if (Thorough()) ns.insert(ns.end(), {4097, 65537});
  for (int n : ns)
    for (int form = 0; form < kForms; ++form) {
      if (!Case(F("view/%s/n%d/form%d", name, n, form))) continue;
      for (auto& order : Orders(n)) {
        Objects<T> o(n);
        const std::string what = F("%d objects, form %d", n, form);
        WithForm(form, o, order, [&](View<const T> a, std::vector<const T*> want) {
          Same(a, want, what);
          // All assignment and copy histories over three views.
          Objects<T> o2(3);
          std::vector<const T*> p2 = {&o2.v[2], &o2.v[0]}, d2 = {&o2.v[0], &o2.v[1], &o2.v[2]};
          std::vector<View<const T>> init = {a, View<const T>(o2.v), View<const T>(p2)};
          std::vector<std::vector<const T*>> winit = {want, d2, p2};
          const int depth = n <= 3 ? Pick(3, 4) : 1;
          int total = 1;
          for (int d = 0; d < depth; ++d) total *= 18;
          for (int h = 0; h < total; ++h) {
            auto v = init;
            auto w = winit;
            std::string hist;
            for (int d = 0, x = h; d < depth; ++d, x /= 18) {
              int src = x % 3, dst = x / 3 % 3, how = x / 9 % 2;
              if (how == 0) v[dst] = v[src];
              else { View<const T> t(v[src]); v[dst] = std::move(t); }
              auto copy = w[src];
              w[dst] = copy;
              hist += F(" %d=%d", dst, src);
              for (int i = 0; i < 3; ++i) Same(v[i], w[i], what + hist);
            }
            State(Hash(hist));
          }
          o2.Check(what);
        });
        o.Check(what);
      }
    }
  // Views that allow changes.
  for (int n = 0; n <= Pick(6, 20); ++n)
    for (int form = 0; form < 4; ++form) {
      if (!Case(F("mutable/%s/n%d/form%d", name, n, form))) continue;
      for (auto& order : Orders(n)) {
        Objects<T> o(n);
        std::vector<T*> ptr;
        for (int i = 0; i < n; ++i) ptr.push_back(form < 2 ? &o.v[i] : &o.v[order[i]]);
        auto run = [&](View<T> v) {
          std::vector<const T*> want(ptr.begin(), ptr.end());
          Same(v, want, F("mutable view of %d", n));
          for (int i = 0; i < n; ++i) {
            // A change through the view changes that object and no other.
            int target = ptr[i] - o.v.data();
            Put(v[i], 100 + i);
            o.before[target] = Bytes(*ptr[i]);
            o.Check("after a change through the view");
          }
          View<const T> c(v);
          Same(c, want, "const view of a mutable one");
          View<T> other = v;
          Same(other, want, "copy of a mutable view");
        };
        if (form == 0) run(View<T>(absl::MakeSpan(o.v)));
        if (form == 1) run(View<T>(absl::Span<T>(o.v.data(), n)));
        if (form == 2) run(View<T>(absl::Span<T* const>(ptr)));
        if (form == 3) { absl::Span<T*> s(ptr); run(View<T>(s)); }
        Trace();
      }
    }
}

// ------------------------------------------------------------ batch functions
// Index lists into a pool of keys: what is evaluated in which order.
std::vector<std::vector<int>> Lists(int pool, int max) {
  std::vector<std::vector<int>> r = {{}};
  for (size_t at = 0; at < r.size(); ++at) {
    if ((int)r[at].size() == max) continue;
    for (int k = 0; k < pool; ++k) { auto x = r[at]; x.push_back(k); r.push_back(x); }
  }
  for (int n : {5, 8, 9, 31, 32, 33, 64, 65, 70}) {
    std::vector<int> x;
    for (int i = 0; i < n; ++i) x.push_back(i * 7 / 3 % pool);
    r.push_back(x);
  }
  return r;
}
// The pool itself, then its first key next to each key that differs from it in
// one part, at the same points.
template <typename K, typename Points, typename Use>
void WithPools(const std::vector<K>& base, Points points, Use use) {
  auto lists = Lists(3, Pick(3, 5));
  for (int n : Pick(std::vector<int>{4099, 66000}, std::vector<int>{4099, 33000, 66000, 140000})) {
    std::vector<int> x;
    for (int i = 0; i < n; ++i) x.push_back(Mix(i) % 3);
    lists.push_back(x);
  }
  use(base, points, lists);
  points[1] = points[0];
  for (auto& k : Lookalikes(base[0], base[2])) use(std::vector<K>{base[0], k, base[2]}, points, Lists(3, Pick(2, 3)));
}
template <typename K>
struct Batch {
  std::vector<K> objects;
  std::vector<std::unique_ptr<K>> scattered;
  std::vector<const K*> pointers, shared;
  std::vector<std::string> before;
  Batch(const std::vector<K>& pool, const std::vector<int>& list) {
    for (int i : list) {
      objects.push_back(pool[i]);
      scattered.push_back(std::make_unique<K>(pool[i]));
      before.push_back(pool[i].SerializeAsString());
    }
    for (auto& s : scattered) pointers.push_back(s.get());
    for (int i : list) shared.push_back(&pool[i]);
  }
  void Check(const std::vector<K>& pool, const std::vector<int>& list) {
    for (size_t i = 0; i < list.size(); ++i)
      if (objects[i].SerializeAsString() != before[i] || pointers[i]->SerializeAsString() != before[i] || pool[list[i]].SerializeAsString() != before[i] ||
          pointers[i] != scattered[i].get() || shared[i] != &pool[list[i]])
        Fail("keys-modified", "key %zu", i);
  }
};
std::string Show(const std::vector<int>& l) {
  std::string s = "[";
  for (size_t i = 0; i < l.size() && i < 6; ++i) s += F("%d ", l[i]);
  return s + (l.size() > 6 ? F("..(%zu)]", l.size()) : "]");
}
void RunDpf(int log) {
  if (!Case(F("batch/dpf/log%d", log))) return;
  R().Reset(log);
  dp::DpfParameters p[2];
  p[0].set_log_domain_size(log / 2);
  p[1].set_log_domain_size(log);
  for (auto& x : p) x.mutable_value_type()->mutable_integer()->set_bitsize(32);
  auto dpf = dp::DistributedPointFunction::CreateIncremental({p[0], p[1]});
  if (!dpf.ok()) { Fail("create", "%s", dpf.status().ToString().c_str()); return; }
  std::vector<dp::DpfKey> pool;
  const u128 mask = MaskBits(log);
  std::vector<u128> points;
  for (int i = 0; i < 3; ++i) {
    u128 alpha = u128(Mix(i + log)) & mask;
    auto k = (*dpf)->GenerateKeysIncremental(alpha, std::vector<dp::Value>{*(*dpf)->ToValue(uint32_t(i + 1)), *(*dpf)->ToValue(uint32_t(i + 10))});
    if (!k.ok()) { Fail("keys", "%s", k.status().ToString().c_str()); return; }
    pool.push_back(i == 1 ? k->second : k->first);
    points.push_back(alpha);
  }
  WithPools(pool, points, [&](const std::vector<dp::DpfKey>& pool, const std::vector<u128>& points, std::vector<std::vector<int>> lists) {
  for (auto& list : lists) {
    Batch<dp::DpfKey> b(pool, list);
    std::vector<u128> xs;
    for (size_t i = 0; i < list.size(); ++i) xs.push_back(i % 2 ? points[list[i]] : (points[list[i]] + i) & mask);
    auto run = [&](auto keys) {
      std::string log_;
      auto s = (*dpf)->EvaluateAndApply<uint32_t>(keys, absl::MakeConstSpan(xs), [&](absl::Span<const uint32_t> v) {
        for (uint32_t x : v) log_ += F("%u,", x);
        log_ += ";";
        return true;
      });
      Trace();
      return s.ok() ? log_ : std::string("error");
    };
    std::string a = run(absl::MakeConstSpan(b.objects)), c = run(absl::MakeConstSpan(b.pointers)), d = run(absl::MakeConstSpan(b.shared));
    std::string want;
    if (list.empty()) want = a;
    else
      for (int level = 0; level < 2; ++level) {
        for (size_t i = 0; i < list.size(); ++i) {
          u128 x = level ? xs[i] : xs[i] >> (log - log / 2);
          auto v = (*dpf)->EvaluateAt<uint32_t>(pool[list[i]], level, {x});
          want += v.ok() ? F("%u,", (*v)[0]) : "?";
        }
        want += ";";
      }
    State(Hash(a));
    if (a != c) Fail("dpf-pointers", "keys %s: objects and pointers differ", Show(list).c_str());
    if (a != d) Fail("dpf-shared", "keys %s: objects and shared pointers differ", Show(list).c_str());
    if (!list.empty() && a != want) Fail("dpf-single", "keys %s: batch differs from single evaluations", Show(list).c_str());
    b.Check(pool, list);
  }
  });
}
void RunDcf(int log) {
  if (!Case(F("batch/dcf/log%d", log))) return;
  R().Reset(log);
  dp::DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(log);
  p.mutable_parameters()->mutable_value_type()->mutable_integer()->set_bitsize(64);
  auto dcf = dp::DistributedComparisonFunction::Create(p);
  if (!dcf.ok()) { Fail("create", "%s", dcf.status().ToString().c_str()); return; }
  std::vector<dp::DcfKey> pool;
  const u128 mask = MaskBits(log);
  std::vector<u128> points;
  for (int i = 0; i < 3; ++i) {
    u128 alpha = u128(Mix(i + log)) & mask;
    auto k = (*dcf)->GenerateKeys(alpha, uint64_t(i + 3));
    if (!k.ok()) { Fail("keys", "%s", k.status().ToString().c_str()); return; }
    pool.push_back(i == 1 ? k->second : k->first);
    points.push_back(alpha);
  }
  WithPools(pool, points, [&](const std::vector<dp::DcfKey>& pool, const std::vector<u128>& points, std::vector<std::vector<int>> lists) {
  for (auto& list : lists) {
    Batch<dp::DcfKey> b(pool, list);
    std::vector<u128> xs;
    std::string want;
    for (size_t i = 0; i < list.size(); ++i) {
      xs.push_back(i % 2 ? points[list[i]] : (points[list[i]] - i) & mask);
      auto v = (*dcf)->Evaluate<uint64_t>(pool[list[i]], xs.back());
      want += v.ok() ? F("%llu,", (unsigned long long)*v) : "?";
    }
    auto run = [&](auto keys) {
      auto v = (*dcf)->BatchEvaluate<uint64_t>(keys, xs);
      Trace();
      if (!v.ok()) return std::string("error");
      std::string r;
      for (uint64_t x : *v) r += F("%llu,", (unsigned long long)x);
      return r;
    };
    std::string a = run(absl::MakeConstSpan(b.objects)), c = run(absl::MakeConstSpan(b.pointers)), d = run(absl::MakeConstSpan(b.shared));
    State(Hash(a));
    if (a != c) Fail("dcf-pointers", "keys %s: objects and pointers differ", Show(list).c_str());
    if (a != d) Fail("dcf-shared", "keys %s: objects and shared pointers differ", Show(list).c_str());
    if (!list.empty() && a != want) Fail("dcf-single", "keys %s: batch differs from single evaluations", Show(list).c_str());
    b.Check(pool, list);
  }
  });
}
void RunMic(int log) {
  if (!Case(F("batch/mic/log%d", log))) return;
  R().Reset(log);
  fg::MicParameters p;
  p.set_log_group_size(log);
  for (int i = 0; i < 2; ++i) {
    auto* x = p.add_intervals();
    x->mutable_lower_bound()->set_value_uint64(i);
    x->mutable_upper_bound()->set_value_uint64(i + 1);
  }
  auto g = fg::MultipleIntervalContainmentGate::Create(p);
  if (!g.ok()) { Fail("create", "%s", g.status().ToString().c_str()); return; }
  std::vector<fg::MicKey> pool;
  const u128 mask = MaskBits(log);
  for (int i = 0; i < 3; ++i) {
    auto k = (*g)->Gen(i & 1, {u128(i & 1), u128(1)});
    if (!k.ok()) { Fail("keys", "%s", k.status().ToString().c_str()); return; }
    pool.push_back(i == 1 ? k->second : k->first);
  }
  WithPools(pool, std::vector<u128>(3), [&](const std::vector<fg::MicKey>& pool, const std::vector<u128>&, std::vector<std::vector<int>> lists) {
  for (auto& list : lists) {
    Batch<fg::MicKey> b(pool, list);
    std::vector<u128> xs;
    std::string want;
    for (size_t i = 0; i < list.size(); ++i) {
      xs.push_back((u128(i) * 5 + i / 2) & mask);
      auto v = (*g)->Eval(pool[list[i]], xs.back());
      if (!v.ok()) { Fail("eval", "%s", v.status().ToString().c_str()); return; }
      for (u128 x : *v) want += S(x) + ",";
    }
    auto run = [&](auto keys) {
      auto v = (*g)->BatchEval(keys, xs);
      Trace();
      if (!v.ok()) return std::string("error");
      std::string r;
      for (u128 x : *v) r += S(x) + ",";
      return r;
    };
    std::string a = run(absl::MakeConstSpan(b.objects)), c = run(absl::MakeConstSpan(b.pointers)), d = run(absl::MakeConstSpan(b.shared));
    State(Hash(a));
    if (a != c) Fail("mic-pointers", "keys %s: objects and pointers differ", Show(list).c_str());
    if (a != d) Fail("mic-shared", "keys %s: objects and shared pointers differ", Show(list).c_str());
    if (!list.empty() && a != want) Fail("mic-single", "keys %s: batch differs from single evaluations", Show(list).c_str());
    b.Check(pool, list);
  }
  });
}
}  // namespace
void VpRun() {
  RunViews<int>("int");
  RunViews<uint8_t>("byte");
  RunViews<std::string>("string");
  RunViews<Solid>("uncopyable");
  RunViews<dp::DpfKey>("key");
  for (int log : {2, 3, 5, 12, 64, 128}) {
    RunDpf(log);
    RunDcf(log);
    if (log < 128) RunMic(log);
  }
}
