// P23: database builders under all bounded call sequences.
#include <set>

#include "choices.h"
#include "pir_common.h"
using namespace vp;

namespace {
using Strings = std::vector<std::string>;
using KV = std::vector<std::pair<std::string, std::string>>;
using DenseI = dp::DenseDpfPirDatabase::Interface;
using SimpleI = dp::SimpleHashedDpfPirDatabase::Interface;
using CuckooI = dp::CuckooHashedDpfPirDatabase::Interface;

template <typename Db>
std::vector<std::vector<typename Db::BlockType>> Units(size_t n) {
  std::vector<std::vector<typename Db::BlockType>> r;
  for (size_t i = 0; i < n; ++i) {
    std::vector<typename Db::BlockType> s((n + 127) / 128);
    s[i / 128] = typename Db::BlockType(absl::uint128(1) << (i % 128));
    r.push_back(s);
  }
  return r;
}
// Rows of a dense database as seen through selections; nullopt if all empty.
bool RowsOf(const DenseI& db, Strings* rows) {
  auto r = db.InnerProductWith(Units<DenseI>(db.num_selection_bits()));
  if (!r.ok()) return false;
  *rows = *r;
  return true;
}

// One builder and what it must contain.
struct Model {
  KV records;       // since the last clear
  bool params = false, built = false, tainted = false;
  int config = 0;
};

struct DenseFlavour {
  using Builder = DenseI::Builder;
  static constexpr int kInserts = 3, kConfigs = 0;
  static std::unique_ptr<Builder> New() { return std::make_unique<dp::DenseDpfPirDatabase::Builder>(); }
  static std::pair<std::string, std::string> Record(int i) {
    static const Strings v = {"x", "", std::string(17, 'y')};
    return {"", v[i]};
  }
  static void Insert(Builder* b, int i) { b->Insert(Record(i).second); }
  static void Configure(Builder*, int, Model*) {}
  static bool MustBuild(const Model&) { return true; }
  static bool MayBuild(const Model&) { return true; }
  static void Check(const DenseI& db, const Model& m, const std::string& what) {
    size_t max = 0;
    for (auto& r : m.records) max = std::max(max, r.second.size());
    if (db.size() != m.records.size() || db.num_selection_bits() != m.records.size()) { Fail("size", "%s: %zu rows, %zu selection bits instead of %zu", what.c_str(), db.size(), db.num_selection_bits(), m.records.size()); return; }
    auto* d = static_cast<const dp::DenseDpfPirDatabase*>(&db);
    if (d->max_value_size_in_bytes() != max) Fail("max", "%s: longest %zu instead of %zu", what.c_str(), d->max_value_size_in_bytes(), max);
    if (d->content().size() != m.records.size()) { Fail("content", "%s: %zu views", what.c_str(), d->content().size()); return; }
    for (size_t i = 0; i < m.records.size(); ++i)
      if (d->content()[i] != m.records[i].second) Fail("row", "%s: row %zu is %s", what.c_str(), i, Printable(std::string(d->content()[i])).c_str());
    Strings rows;
    if (m.records.size() > 5000) {  // rows around powers of two only
      std::vector<int> at;
      std::vector<std::vector<DenseI::BlockType>> sel;
      for (size_t p = 1; p < 2 * m.records.size(); p *= 2)
        for (size_t r : {p - 1, p, m.records.size() - p})
          if (r < m.records.size()) {
            at.push_back(r);
            sel.emplace_back((m.records.size() + 127) / 128, DenseI::BlockType(0));
            sel.back()[r / 128] = DenseI::BlockType(absl::uint128(1) << (r % 128));
          }
      auto r = db.InnerProductWith(sel);
      if (!r.ok()) { Fail("select", "%s: %s", what.c_str(), r.status().ToString().c_str()); return; }
      for (size_t i = 0; i < at.size(); ++i) {
        std::string w = m.records[at[i]].second;
        w.resize(max, '\0');
        if ((*r)[i] != w) Fail("row", "%s: row %d selects %s", what.c_str(), at[i], Printable((*r)[i]).c_str());
      }
      return;
    }
    if (!RowsOf(db, &rows)) {
      if (max) Fail("select", "%s", what.c_str());
      return;
    }
    if (!max) return;
    for (size_t i = 0; i < m.records.size(); ++i) {
      std::string w = m.records[i].second;
      w.resize(max, '\0');
      if (rows[i] != w) Fail("row", "%s: row %zu selects %s", what.c_str(), i, Printable(rows[i]).c_str());
    }
  }
};
// Key-value records; the last one has an empty key, which no database accepts.
std::pair<std::string, std::string> KvRecord(int i) {
  static const KV r = {{"a", "1"}, {"b", std::string(20, 'v')}, {"a", "other"}, {"", "e"}};
  return r[i];
}
std::unique_ptr<DenseI::Builder> Dirty() {
  auto b = std::make_unique<dp::DenseDpfPirDatabase::Builder>();
  b->Insert("left over").Insert(std::string(50, 'z'));
  return b;
}
struct SimpleFlavour {
  using Builder = SimpleI::Builder;
  static constexpr int kInserts = 4, kConfigs = 5;
  static std::unique_ptr<Builder> New() { return std::make_unique<dp::SimpleHashedDpfPirDatabase::Builder>(); }
  static std::pair<std::string, std::string> Record(int i) { return KvRecord(i); }
  static void Insert(Builder* b, int i) { b->Insert(KvRecord(i)); }
  static dp::SimpleHashingParams Params(int buckets) {
    dp::SimpleHashingParams p;
    p.set_num_buckets(buckets);
    p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
    p.mutable_hash_family_config()->set_seed("seed");
    return p;
  }
  static void Configure(Builder* b, int i, Model* m) {
    auto* s = static_cast<dp::SimpleHashedDpfPirDatabase::Builder*>(b);
    switch (i) {
      case 0: s->SetParams(Params(1)); m->config = 1; break;
      case 1: s->SetParams(Params(3)); m->config = 3; break;
      case 2: s->SetParams({}); m->config = 0; break;
      case 3: s->SetDenseDatabaseBuilder(Dirty()); break;
      case 4: s->SetDenseDatabaseBuilder(nullptr); break;
    }
  }
  static bool MayBuild(const Model& m) {
    if (m.config == 0) return false;
    for (auto& r : m.records) if (r.first.empty()) return false;
    return true;
  }
  static bool MustBuild(const Model& m) { return MayBuild(m); }
  static void Check(const SimpleI& db, const Model& m, const std::string& what) {
    if (db.size() != m.records.size() || (int)db.num_selection_bits() != m.config) { Fail("size", "%s: %zu records in %zu buckets instead of %zu in %d", what.c_str(), db.size(), db.num_selection_bits(), m.records.size(), m.config); return; }
    auto r = db.InnerProductWith(Units<SimpleI>(m.config));
    if (!r.ok()) { if (!m.records.empty()) Fail("select", "%s: %s", what.c_str(), r.status().ToString().c_str()); return; }
    KV got;
    for (auto& s : *r) {
      dp::HashedPirDatabaseBucket b;
      google::protobuf::io::CodedInputStream in(reinterpret_cast<const uint8_t*>(s.data()), s.size());
      if (!b.ParseFromCodedStream(&in) || b.keys_size() != b.values_size()) { Fail("bucket", "%s", what.c_str()); return; }
      for (int i = 0; i < b.keys_size(); ++i) got.push_back({b.keys(i), b.values(i)});
    }
    KV want = m.records;
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) Fail("records", "%s: %zu records, not the %zu inserted", what.c_str(), got.size(), want.size());
  }
};
struct CuckooFlavour {
  using Builder = CuckooI::Builder;
  static constexpr int kInserts = 4, kConfigs = 5;
  static std::unique_ptr<Builder> New() { return std::make_unique<dp::CuckooHashedDpfPirDatabase::Builder>(); }
  static std::pair<std::string, std::string> Record(int i) { return KvRecord(i); }
  static void Insert(Builder* b, int i) { b->Insert(KvRecord(i)); }
  static dp::CuckooHashingParams Params(int buckets) {
    dp::CuckooHashingParams p;
    p.set_num_buckets(buckets);
    p.set_num_hash_functions(3);
    p.mutable_hash_family_config()->set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
    p.mutable_hash_family_config()->set_seed("seed");
    return p;
  }
  static void Configure(Builder* b, int i, Model* m) {
    auto* s = static_cast<dp::CuckooHashedDpfPirDatabase::Builder*>(b);
    switch (i) {
      case 0: s->SetParams(Params(9)); m->config = 9; break;
      case 1: s->SetParams({}); m->config = 0; break;
      case 2: s->SetKeyDatabaseBuilder(Dirty()); break;
      case 3: s->SetValueDatabaseBuilder(Dirty()); break;
      case 4: s->SetKeyDatabaseBuilder(nullptr), s->SetValueDatabaseBuilder(nullptr); break;
    }
  }
  static bool MayBuild(const Model& m) { return SimpleFlavour::MayBuild(m); }
  static bool MustBuild(const Model& m) { return MayBuild(m); }  // two keys and nine buckets always fit
  static void Check(const CuckooI& db, const Model& m, const std::string& what) {
    // The value of a key inserted more than once may be any of those inserted.
    std::map<std::string, std::set<std::string>> want;
    size_t max = 0;
    for (auto& r : m.records) want[r.first].insert(r.second), max = std::max(max, r.second.size());
    if (db.size() != want.size() || (int)db.num_selection_bits() != m.config) { Fail("size", "%s: %zu records in %zu buckets instead of %zu in %d", what.c_str(), db.size(), db.num_selection_bits(), want.size(), m.config); return; }
    auto r = db.InnerProductWith(Units<CuckooI>(m.config));
    if (!r.ok()) { if (!m.records.empty()) Fail("select", "%s: %s", what.c_str(), r.status().ToString().c_str()); return; }
    auto strip = [](std::string s) { while (!s.empty() && s.back() == '\0') s.pop_back(); return s; };
    std::set<std::string> got;
    for (auto& [k, v] : *r) {
      std::string key = strip(k);
      if (key.empty()) { if (!strip(v).empty()) Fail("records", "%s: value without key", what.c_str()); continue; }
      if (!got.insert(key).second) Fail("records", "%s: key %s stored twice", what.c_str(), key.c_str());
      if (!want.count(key) || !want[key].count(strip(v))) Fail("records", "%s: %s=%s was not inserted", what.c_str(), key.c_str(), Printable(v).c_str());
    }
    if (got.size() != want.size()) Fail("records", "%s: %zu keys instead of %zu", what.c_str(), got.size(), want.size());
  }
};

// Two builders; operations on either; the second comes into being by cloning.
template <typename Fl>
struct World2 {
  std::unique_ptr<typename Fl::Builder> b[2];
  Model m[2];
  std::string trail;
};
constexpr int kMaxBuilders = 2;
template <typename Fl>
int OpsPerBuilder() { return Fl::kInserts + Fl::kConfigs + 3; }
template <typename Fl>
bool Apply(World2<Fl>& w, int op) {
  int who = op / OpsPerBuilder<Fl>(), o = op % OpsPerBuilder<Fl>();
  if (!w.b[who]) return false;
  Model& m = w.m[who];
  Trans();
  if (o < Fl::kInserts) {
    w.trail += F(" %d.insert%d", who, o);
    Fl::Insert(w.b[who].get(), o);
    m.records.push_back(Fl::Record(o));
    return true;
  }
  o -= Fl::kInserts;
  if (o < Fl::kConfigs) {
    w.trail += F(" %d.config%d", who, o);
    Fl::Configure(w.b[who].get(), o, &m);
    return true;
  }
  o -= Fl::kConfigs;
  if (o == 0) {
    w.trail += F(" %d.clear", who);
    w.b[who]->Clear();
    m.records.clear();
    m.built = m.tainted = false;
    return true;
  }
  if (o == 1) {
    w.trail += F(" %d.clone", who);
    w.b[1 - who] = w.b[who]->Clone();
    w.m[1 - who] = m;
    return true;
  }
  w.trail += F(" %d.build", who);
  auto r = w.b[who]->Build();
  Trace();
  State(Hash(w.trail));
  const std::string what = "after" + w.trail;
  if (m.built) {
    if (r.ok()) Fail("built-twice", "%s: built again", what.c_str());
    else if (r.status().code() != absl::StatusCode::kFailedPrecondition) Fail("built-twice-code", "%s: %s", what.c_str(), r.status().ToString().c_str());
    return true;
  }
  if (r.ok()) {
    if (*r == nullptr) Fail("null", "%s", what.c_str());
    else if (!Fl::MayBuild(m)) Fail("accepted", "%s: built", what.c_str());
    else Fl::Check(**r, m, what);
    m.built = true;
    Count("built");
  } else {
    if (Fl::MustBuild(m) && !m.tainted) Fail("refused", "%s: %s", what.c_str(), r.status().ToString().c_str());
    m.tainted = true;
    Count("refused");
  }
  return true;
}
template <typename Fl>
void Sequences(const char* name, int depth) {
  const int per = OpsPerBuilder<Fl>(), ops = 2 * per;
  std::vector<int> seq(depth, 0);
  // One case per pair of first operations.
  for (int a = 0; a < per; ++a)
    for (int b = 0; b < ops; ++b) {
      if (!Case(F("%s/%d/%d/%d", name, depth, a, b))) continue;
      std::vector<int> s(depth);
      s[0] = a, s[1] = b;
      for (;;) {
        // Sequences end in a build, otherwise nothing new is observed.
        bool ends = s[depth - 1] % per == per - 1;
        if (ends) {
          World2<Fl> w;
          w.b[0] = Fl::New();
          bool ok = true;
          for (int i = 0; ok && i < depth; ++i) ok = Apply(w, s[i]);
          if (ok) Sample(w.trail);
        }
        int i = depth - 1;
        while (i >= 2 && ++s[i] == ops) s[i--] = 0;
        if (i < 2) break;
      }
    }
}
// Many records: built at once, after a clear, and from a clone that goes on.
template <typename Fl>
void Large(const char* name, int n, int buckets, size_t longest) {
  if (!Case(F("%s/large/%d/%d", name, n, buckets))) return;
  auto record = [&](int i) {
    std::string v((i * 37) % (longest + 1), 0);
    for (size_t k = 0; k < v.size(); ++k) v[k] = static_cast<char>(1 + Mix(i * 1000 + k) % 255);
    if (v.empty()) v = "e";
    return std::make_pair(std::is_same<Fl, DenseFlavour>::value ? std::string() : F("key %d", i), v);
  };
  auto insert = [&](typename Fl::Builder* b, int i, Model* m) {
    auto r = record(i);
    if constexpr (std::is_same<Fl, DenseFlavour>::value) b->Insert(r.second);
    else b->Insert(r);
    m->records.push_back(r);
  };
  auto make = [&](Model* m) {
    auto b = Fl::New();
    if constexpr (std::is_same<Fl, SimpleFlavour>::value) static_cast<dp::SimpleHashedDpfPirDatabase::Builder*>(b.get())->SetParams(Fl::Params(buckets));
    if constexpr (std::is_same<Fl, CuckooFlavour>::value) static_cast<dp::CuckooHashedDpfPirDatabase::Builder*>(b.get())->SetParams(Fl::Params(buckets));
    m->config = buckets;
    return b;
  };
  auto build = [&](typename Fl::Builder* b, const Model& m, const std::string& what) {
    auto r = b->Build();
    Trace();
    State(Hash(what));
    if (!r.ok()) { Fail("refused", "%s: %s", what.c_str(), r.status().ToString().c_str()); return; }
    Fl::Check(**r, m, what);
  };
  Model m, half;
  auto b = make(&m);
  for (int i = 0; i < n / 2; ++i) insert(b.get(), i, &m);
  half = m;
  auto clone = b->Clone();
  for (int i = n / 2; i < n; ++i) insert(b.get(), i, &m);
  Trans(n);
  build(b.get(), m, F("%s: %d records", name, n));
  build(clone.get(), half, F("%s: clone after %d records", name, n / 2));
  b->Clear();
  m.records.clear();
  for (int i = n; i > n / 3; --i) insert(b.get(), i, &m);
  build(b.get(), m, F("%s: %d records after a clear", name, n - n / 3));
  Sample(F("%s database of %d records in %d buckets", name, n, buckets));
}
}  // namespace
void VpRun() {
  C().pseudo = true;
  C().arity = 3;
#ifdef __SANITIZE_ADDRESS__
  const int dense = 6, hashed = 5;
#else
  const int dense = Pick(7, 8), hashed = Pick(6, 7);
#endif
  for (int d = 3; d <= dense; ++d) Sequences<DenseFlavour>("dense", d);
  for (int d = 3; d <= hashed; ++d) Sequences<SimpleFlavour>("simple", d);
  for (int d = 3; d <= hashed; ++d) Sequences<CuckooFlavour>("cuckoo", d);
  for (int n : {40, 129, 300, 1000, Pick(1500, 4000)}) {
    Large<DenseFlavour>("dense", n, 0, 70);
    Large<SimpleFlavour>("simple", n, 1, 40);
    Large<SimpleFlavour>("simple", n, 37, 40);
    Large<SimpleFlavour>("simple", n, 2 * n, 40);
    Large<CuckooFlavour>("cuckoo", n, 2 * n, 40);
  }
  for (int n : {66000, Pick(140000, 1100000)}) Large<DenseFlavour>("dense", n, 0, 20);
  Large<SimpleFlavour>("simple", 66000, 1, 8);
  Large<SimpleFlavour>("simple", 6000, 3, 8);
  Large<DenseFlavour>("dense", 10, 0, 100000);
  Large<CuckooFlavour>("cuckoo", 10, 129, 100000);
}
