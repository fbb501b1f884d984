// P24: the inner product of database rows with packed selection bits.
#include "guard.h"
#include "hwy_targets.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/internal/inner_product_hwy.h"
#include "vp.h"
using namespace vp;
namespace dp = distributed_point_functions;
using Block = dp::pir_internal::BlockType;
using Sel = std::vector<Block>;
using Views = std::vector<absl::string_view>;

namespace {
char Byte(uint64_t row, uint64_t i) { return char(Mix(row * 1000003 + i) >> 11); }
// Selection vectors as plain bits, packed for the implementation.
using Bits = std::vector<bool>;
Sel Pack(const Bits& b, size_t blocks) {
  Sel s(blocks);
  for (size_t i = 0; i < blocks; ++i) {
    absl::uint128 v = 0;
    for (int j = 0; j < 128; ++j)
      if (i * 128 + j < b.size() && b[i * 128 + j]) v |= absl::uint128(1) << j;
    s[i] = Block(v);
  }
  return s;
}
std::string Want(const Views& rows, const Bits& b, size_t max) {
  std::string r(max, '\0');
  for (size_t i = 0; i < rows.size(); ++i)
    if (i < b.size() && b[i])
      for (size_t k = 0; k < rows[i].size(); ++k) r[k] ^= rows[i][k];
  return r;
}
using Fn = std::function<absl::StatusOr<std::vector<std::string>>(const Views&, const std::vector<Sel>&, int64_t)>;
struct Impl {
  std::string name;
  std::function<void()> select;
  Fn fn;
};
std::vector<Impl> Impls() {
  std::vector<Impl> r;
  for (auto& t : HwyTargets())
    r.push_back({t.name, [t] { UseTarget(t); }, [](const Views& v, const std::vector<Sel>& s, int64_t m) { return dp::pir_internal::InnerProduct(v, s, m); }});
  r.push_back({"plain", [] {}, [](const Views& v, const std::vector<Sel>& s, int64_t m) { return dp::pir_internal::InnerProductNoHwy(v, s, m); }});
  return r;
}
void Check(const char* sig, const Impl& im, const Views& rows, const std::vector<Bits>& sels, size_t blocks, int64_t max, const std::string& what) {
  std::vector<Sel> packed;
  for (auto& b : sels) packed.push_back(Pack(b, blocks));
  auto r = im.fn(rows, packed, max);
  Trans();
  Trace();
  if (!r.ok()) { Fail("status", "%s: %s", what.c_str(), r.status().ToString().c_str()); return; }
  if (r->size() != sels.size()) { Fail("count", "%s: %zu results for %zu vectors", what.c_str(), r->size(), sels.size()); return; }
  for (size_t k = 0; k < sels.size(); ++k) {
    State(Hash((*r)[k], k));
    std::string want = Want(rows, sels[k], max);
    if ((*r)[k] != want) {
      size_t at = 0;
      while (at < want.size() && at < (*r)[k].size() && want[at] == (*r)[k][at]) ++at;
      Fail(sig, "%s: vector %zu of %zu differs at byte %zu of %zu", what.c_str(), k, sels.size(), at, want.size());
    }
  }
}

// Row lengths, placements, selections of up to three rows by up to three vectors.
void Rows(const Impl& im) {
  const size_t maxlen = Pick(400, 900);
  const int residues[] = {-1, 0, 1, 8, 15, 16, 17, 32, 48, 63};
  Guarded g1(4096), g2(4096), g3(4096);
  for (size_t base = 0; base <= maxlen; base += 5) {
    if (!Case(F("row/%s/%zu", im.name.c_str(), base))) continue;
    im.select();
    for (size_t len = base; len < base + 5; ++len)
      for (int res : residues) {
        auto place = [&](Guarded& g, size_t n, int r, int row) {
          uint8_t* p = r < 0 ? g.End(n) : g.At(n, r);
          for (size_t i = 0; i < n; ++i) p[i] = Byte(row + len, i);
          return absl::string_view(reinterpret_cast<char*>(p), n);
        };
        Views one = {place(g1, len, res, 1)};
        for (size_t extra : {0, 1, 17}) {
          if (len + extra == 0) continue;
          for (int nv = 1; nv <= 3; ++nv)
            for (int pat = 0; pat < 1 << nv; ++pat) {
              std::vector<Bits> s;
              for (int k = 0; k < nv; ++k) s.push_back({(pat >> k & 1) != 0});
              Check("one-row", im, one, s, 1, len + extra, F("row of %zu bytes at %d, longest %zu, vectors %x/%d", len, res, len + extra, pat, nv));
            }
        }
        // Three rows of different lengths and placements.
        for (size_t l2 : {size_t{0}, size_t{1}, size_t{16}, size_t{33}, len}) {
          const int res2 = residues[(len + l2 + 3) % 10];
          Views rows = {one[0], place(g2, l2, res2, 300), place(g3, (len + l2) % 70, 0, 500)};
          size_t max = 0;
          for (auto& v : rows) max = std::max(max, v.size());
          if (!max) continue;
          std::vector<Bits> s;
          for (int pat = 0; pat < 8; ++pat) s.push_back({(pat & 1) != 0, (pat & 2) != 0, (pat & 4) != 0});
          Check("rows", im, rows, s, 1, max, F("rows of %zu, %zu, %zu bytes", len, l2, rows[2].size()));
          if (len % 8 == 3)
            for (int a = 0; a < 8; ++a)
              for (int b = 0; b < 8; ++b) Check("rows", im, rows, {s[a], s[b]}, 1, max, F("rows of %zu, %zu, %zu bytes by %d, %d", len, l2, rows[2].size(), a, b));
        }
      }
    Sample(F("%s: rows of %zu..%zu bytes at 10 placements", im.name.c_str(), base, base + 4));
  }
}

std::vector<std::string> MakeRows(int n, int pattern) {
  std::vector<std::string> rows;
  for (int i = 0; i < n; ++i) {
    static const int kinds[3][8] = {{3, 3, 3, 3, 3, 3, 3, 3}, {0, 1, 16, 17, 5, 32, 0, 64}, {70, 1, 0, 2, 2, 0, 1, 1}};
    size_t len = kinds[pattern][i % 8];
    std::string s;
    for (size_t k = 0; k < len; ++k) s += Byte(i + 7, k);
    rows.push_back(s);
  }
  return rows;
}
// Row counts: every row alone, everything but one row, dense patterns, bits
// beyond the last row, more blocks than needed, many vectors at once.
void Counts(const Impl& im, bool database) {
  const int maxn = Pick(400, 900);
  for (int n = 0; n <= maxn; ++n) {
    const bool near = n <= 20 || n % 8 <= 1 || n % 128 <= 1 || n % 128 >= 127;
    if (!Thorough() && !near && n % 5) continue;
    if (!Case(F("%s/%s/n%d", database ? "database" : "count", im.name.c_str(), n))) continue;
    im.select();
    for (int pattern = 0; pattern < 3; ++pattern) {
      std::vector<std::string> data = MakeRows(n, pattern);
      Views rows;
      std::unique_ptr<dp::DenseDpfPirDatabase::Interface> db;
      Impl use = im;
      size_t max = 0;
      for (auto& s : data) max = std::max(max, s.size());
      if (database) {
        dp::DenseDpfPirDatabase::Builder b;
        for (auto& s : data) b.Insert(s);
        auto r = b.Build();
        if (!r.ok()) { Fail("build", "%s", r.status().ToString().c_str()); continue; }
        db = std::move(*r);
        auto* dense = static_cast<dp::DenseDpfPirDatabase*>(db.get());
        if ((int)db->size() != n || (int)db->num_selection_bits() != n || dense->max_value_size_in_bytes() != max || (int)dense->content().size() != n)
          Fail("size", "%d rows: size %zu, bits %zu, longest %zu", n, db->size(), db->num_selection_bits(), dense->max_value_size_in_bytes());
        for (int i = 0; i < n && i < (int)dense->content().size(); ++i)
          if (dense->content()[i] != data[i]) Fail("content", "row %d of %d", i, n);
        use.fn = [&db](const Views&, const std::vector<Sel>& s, int64_t) { return db->InnerProductWith(s); };
      }
      for (auto& s : data) rows.push_back(s);
      if (!max) continue;
      const size_t blocks = (n + 127) / 128;
      std::vector<Bits> single, special;
      for (int i = 0; i < n; ++i) {
        Bits b(n, false);
        b[i] = true;
        single.push_back(b);
      }
      auto fn = [&](auto f) {
        Bits b(n);
        for (int i = 0; i < n; ++i) b[i] = f(i);
        special.push_back(b);
      };
      fn([](int) { return false; });
      fn([](int) { return true; });
      fn([](int i) { return i % 2 == 0; });
      fn([](int i) { return i % 3 == 1; });
      fn([](int i) { return i / 128 % 2 == 0; });
      fn([](int i) { return i / 64 % 2 == 1; });
      for (int d : {0, 1, 7, 8, 63, 64, 127, 128, 255, 256})
        if (d < n) fn([d](int i) { return i != d; });
      for (int k = 0; k < 6; ++k) fn([k](int i) { return (Mix(i * 31 + k) & 1) != 0; });
      std::vector<Bits> all = special;
      all.insert(all.end(), single.begin(), single.end());
      // Groups of 1..5 (17) vectors.
      size_t at = 0;
      const std::string what = F("%d rows of kind %d", n, pattern);
      for (int g = 0; at < all.size(); ++g) {
        size_t sizes[] = {1, 2, 3, 4, 5, 17};
        size_t take = std::min(all.size() - at, sizes[g % 6]);
        Check("rows-selected", use, rows, std::vector<Bits>(all.begin() + at, all.begin() + at + take), std::max<size_t>(blocks, 1), max, what);
        at += take;
      }
      // Bits beyond the last row, and whole extra blocks, are ignored.
      for (size_t extra = 0; extra <= 2; ++extra)
        for (auto& b : special) {
          Bits junk = b;
          junk.resize((blocks + extra) * 128, true);
          Check("junk", use, rows, {junk, b}, blocks + extra, max, what + F(", %zu extra blocks", extra));
        }
      // Longer output than the longest row.
      if (!database)
        for (size_t more : {1, 15, 64, 129}) Check("longer", use, rows, {special[1], special[3]}, blocks, max + more, what + F(" padded by %zu", more));
    }
    Sample(F("%s%s: %d rows, three length patterns", im.name.c_str(), database ? " database" : "", n));
  }
}
// Long rows and many rows, through rows in memory and through a built database.
void Scale(const Impl& im) {
  struct S { int n; size_t len; };
  for (auto& z : std::vector<S>{{1, 1000}, {3, 4095}, {3, 4096}, {3, 4097}, {2, 65535}, {2, 65537}, {2, 1 << 20}, {130, 1021}, {257, 4099}, {1025, 33}, {2047, 20}, {2048, 16},
                                {2049, 17}, {4097, 9}, {8193, 3}, {20000, 5}, {65537, 2}}) {
    if (!Case(F("scale/%s/%dx%zu", im.name.c_str(), z.n, z.len))) continue;
    im.select();
    std::vector<std::string> data;
    for (int i = 0; i < z.n; ++i) {
      // Mostly of full length; some shorter, and one of every length near it.
      size_t len = i % 5 == 3 ? z.len / 2 + i % 7 : i % 5 == 4 ? z.len - std::min<size_t>(z.len, i % 40) : z.len;
      std::string s(std::min(len, z.len), 0);
      for (size_t k = 0; k < s.size(); ++k) s[k] = Byte(i + 7, k) ^ (k >> 12);
      data.push_back(s);
    }
    Views rows(data.begin(), data.end());
    std::vector<Bits> sels;
    auto fn = [&](auto f) {
      Bits b(z.n);
      for (int i = 0; i < z.n; ++i) b[i] = f(i);
      sels.push_back(b);
    };
    fn([](int) { return true; });
    fn([&](int i) { return i == z.n - 1; });
    fn([](int i) { return i == 0; });
    fn([&](int i) { return i == z.n / 2 || i == z.n - 2; });
    fn([](int i) { return (Mix(i * 31 + 5) & 1) != 0; });
    fn([](int i) { return i >= 1024; });
    fn([](int i) { return (Mix(i * 31 + 6) & 7) == 0; });
    const size_t blocks = (z.n + 127) / 128;
    Check("scale", im, rows, sels, blocks, z.len, F("%d rows of %zu bytes", z.n, z.len));
    Check("scale", im, rows, {sels[4]}, blocks, z.len, F("%d rows of %zu bytes", z.n, z.len));
    if (im.name == "plain") continue;
    dp::DenseDpfPirDatabase::Builder b;
    for (auto& s : data) b.Insert(s);
    auto r = b.Build();
    if (!r.ok()) { Fail("build", "%s", r.status().ToString().c_str()); continue; }
    Impl use = im;
    use.fn = [&r](const Views&, const std::vector<Sel>& s, int64_t) { return (*r)->InnerProductWith(s); };
    Check("scale-database", use, rows, sels, blocks, z.len, F("database of %d rows of %zu bytes", z.n, z.len));
    Sample(F("%s: %d rows of %zu bytes", im.name.c_str(), z.n, z.len));
  }
}
void Errors(const Impl& im) {
  if (im.name == "plain") return;
  if (!Case("errors/" + im.name)) return;
  im.select();
  for (int n = 0; n <= 300; ++n) {
    std::vector<std::string> data(n, "abc");
    Views rows(data.begin(), data.end());
    for (int b0 = 0; b0 <= 4; ++b0)
      for (int b1 = -1; b1 <= 4; ++b1)
        for (int64_t max : {-1, 0, 2, 3, 4}) {
          std::vector<Sel> s = {Sel(b0)};
          if (b1 >= 0) s.push_back(Sel(b1));
          bool enough = b0 * 128 >= n && (b1 < 0 || b1 * 128 >= n);
          bool same = b1 < 0 || b0 == b1;
          bool ok = enough && same && max > 0 && (n == 0 || max >= 3);
          auto r = im.fn(rows, s, max);
          Trans();
          Trace();
          State(((n * 7 + b0) * 7 + b1) * 7 + max);
          if (r.ok() != ok) Fail("refuse", "%d rows, %d and %d blocks, longest %d: %s", n, b0, b1, (int)max, r.ok() ? "accepted" : "refused");
          if (!r.ok() && r.status().code() != absl::StatusCode::kInvalidArgument) Fail("code", "%s", r.status().ToString().c_str());
          if (r.ok())
            for (auto& x : *r)
              if (x != std::string(max, '\0')) Fail("zero", "empty selection of %d rows", n);
        }
    auto r = im.fn(rows, {}, 3);
    if (!r.ok() || !r->empty()) Fail("none", "no selection vectors");
  }
}
}  // namespace
void VpRun() {
  for (auto& im : Impls()) {
    Rows(im);
    Counts(im, false);
    if (im.name != "plain") Counts(im, true);
    Scale(im);
    Errors(im);
  }
}
