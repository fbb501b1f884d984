// Framework shared by all exhaustive harnesses.
//
// A harness enumerates a bounded space as a sequence of named cases. The driver
// (run.py) runs it in several shards; each case belongs to one shard. A case
// explores executions of the real code, counts them (State/Trans/Trace) and
// reports every disagreement with its oracle through Fail.
#ifndef VP_H_
#define VP_H_
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vp {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t Hash(const void* p, size_t n, uint64_t h = 0) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  h = Mix(h ^ (n * 0x9e3779b97f4a7c15ull));
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = Mix(h ^ w);
    b += 8;
    n -= 8;
  }
  uint64_t w = 0;
  memcpy(&w, b, n);
  return Mix(h ^ w);
}
inline uint64_t Hash(const std::string& s, uint64_t h = 0) {
  return Hash(s.data(), s.size(), h);
}

// Open-addressing set of 64-bit hashes.
class HashSet {
 public:
  HashSet() : t_(1 << 12) {}
  bool Insert(uint64_t h) {
    if (h == 0) h = 1;
    if ((n_ + 1) * 2 > t_.size()) Grow();
    size_t m = t_.size() - 1, i = h & m;
    while (t_[i] != 0) {
      if (t_[i] == h) return false;
      i = (i + 1) & m;
    }
    t_[i] = h;
    ++n_;
    return true;
  }
  size_t size() const { return n_; }

 private:
  void Grow() {
    std::vector<uint64_t> old(t_.size() * 2);
    old.swap(t_);
    n_ = 0;
    for (uint64_t h : old)
      if (h) Insert(h);
  }
  std::vector<uint64_t> t_;
  size_t n_ = 0;
};

struct Failure {
  std::string key, sig, msg;
};

struct World {
  bool thorough = false;
  int shard = 0, nshards = 1;
  uint64_t seed = 1;
  std::string mode, out, only, crumb_path;
  std::set<std::string> skip;
  unsigned case_timeout = 120;
  char* crumb = nullptr;
  // Counters.
  int64_t cases_total = 0, cases_run = 0, transitions = 0, traces = 0;
  HashSet states;
  std::map<std::string, int64_t> counts;
  std::vector<std::string> samples;
  std::vector<Failure> failures;
  std::map<std::string, int> fail_per_case;
  std::string key;
  uint64_t key_hash = 0;
  int64_t key_index = 0;
};
inline World& W() {
  static World* w = new World;
  return *w;
}
inline bool Thorough() { return W().thorough; }
inline bool Mode(const char* m) { return W().mode == m; }
template <typename T>
T Pick(T quick, T thorough) { return W().thorough ? thorough : quick; }

inline std::string F(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

// Announces the next case. Returns true if this shard is to run it.
inline bool Case(const std::string& key) {
  World& w = W();
  int64_t idx = w.cases_total++;
  if (!w.only.empty()) {
    if (key != w.only) return false;
  } else {
    // Spread neighbouring cases over the shards without any fixed stride.
    if (Mix(idx / 1) % w.nshards != static_cast<uint64_t>(w.shard)) return false;
    if (!w.skip.empty() && w.skip.count(key)) return false;
  }
  w.key = key;
  w.key_hash = Hash(key);
  w.key_index = idx;
  ++w.cases_run;
  if (w.crumb) {
    size_t n = std::min<size_t>(key.size(), 4000);
    memcpy(w.crumb, key.data(), n);
    w.crumb[n] = 0;
  }
  alarm(w.case_timeout);
  return true;
}

// One observed state of the system under exploration (per case distinct).
inline void State(uint64_t h) { W().states.Insert(Mix(h ^ W().key_hash)); }
inline void Trans(int64_t n = 1) { W().transitions += n; }
// One execution of the implementation compared step by step with the model.
inline void Trace(int64_t n = 1) { W().traces += n; }
inline void Count(const std::string& label, int64_t n = 1) { W().counts[label] += n; }
inline void Sample(const std::string& s) {
  if (W().samples.size() < 4) W().samples.push_back(s);
}

// Reports a violation in the current case. `sig` classifies it.
inline void Fail(const std::string& sig, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
inline void Fail(const std::string& sig, const char* fmt, ...) {
  World& w = W();
  if (w.fail_per_case[w.key + "\n" + sig]++ > 0) return;
  if (w.failures.size() > 500) return;
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  w.failures.push_back({w.key, sig, buf});
}

inline void JsonStr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

inline void WriteResult() {
  World& w = W();
  FILE* f = w.out.empty() ? stdout : fopen(w.out.c_str(), "w");
  if (!f) { perror("out"); exit(3); }
  fprintf(f, "{\"done\":true,\"cases_total\":%lld,\"cases_run\":%lld,\"states\":%zu,"
             "\"transitions\":%lld,\"traces\":%lld,",
          (long long)w.cases_total, (long long)w.cases_run, w.states.size(),
          (long long)w.transitions, (long long)w.traces);
  fprintf(f, "\"counts\":{");
  bool first = true;
  for (auto& [k, v] : w.counts) {
    if (!first) fputc(',', f);
    first = false;
    JsonStr(f, k);
    fprintf(f, ":%lld", (long long)v);
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < w.samples.size(); ++i) {
    if (i) fputc(',', f);
    JsonStr(f, w.samples[i]);
  }
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < w.failures.size(); ++i) {
    if (i) fputc(',', f);
    fprintf(f, "{\"key\":");
    JsonStr(f, w.failures[i].key);
    fprintf(f, ",\"sig\":");
    JsonStr(f, w.failures[i].sig);
    fprintf(f, ",\"msg\":");
    JsonStr(f, w.failures[i].msg);
    fprintf(f, "}");
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}

inline void Parse(int argc, char** argv) {
  World& w = W();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") w.thorough = val() == "thorough";
    else if (a == "--mode") w.mode = val();
    else if (a == "--shard") {
      std::string v = val();
      sscanf(v.c_str(), "%d/%d", &w.shard, &w.nshards);
    } else if (a == "--out") w.out = val();
    else if (a == "--only") w.only = val();
    else if (a == "--skip") w.skip.insert(val());
    else if (a == "--crumb") w.crumb_path = val();
    else if (a == "--seed") w.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--case-timeout") w.case_timeout = atoi(val().c_str());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(3); }
  }
  if (!w.crumb_path.empty()) {
    int fd = open(w.crumb_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) w.crumb = static_cast<char*>(p);
      close(fd);
    }
  }
}

}  // namespace vp

void VpRun();  // defined by each harness

#ifndef VP_NO_MAIN
__attribute__((weak)) int main(int argc, char** argv) {
  vp::Parse(argc, argv);
  VpRun();
  alarm(0);
  vp::WriteResult();
  fflush(nullptr);
  _exit(0);
}
#endif
#endif  // VP_H_
