// Runtime of the controlled scheduler. Compiled without instrumentation.
#include "threads.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <cxxabi.h>

#include "absl/synchronization/mutex.h"

namespace {
using vp::sched::kMaxThreads;
constexpr int N = kMaxThreads;
constexpr size_t kArenaSize = size_t{1} << 36;  // address space only
constexpr size_t kTable = size_t{1} << 22;
constexpr size_t kLogSize = size_t{1} << 21;

struct Clock {
  uint32_t c[N];
  void Join(const Clock& o) {
    for (int i = 0; i < N; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
// Last accesses of one byte.
struct Cell {
  uintptr_t addr;
  uint32_t epoch;
  uint32_t w[N], r[N], aw[N], ar[N];
  uintptr_t wpc[N], rpc[N];
};
struct SyncVar {
  uintptr_t addr;
  uint32_t epoch;
  Clock clock;
};
struct Thread {
  int turn;  // futex: 1 = may run
  bool done;
  bool blocked;
  uintptr_t blocked_on;
  Clock clock;
  long points;
  size_t next_switch;
  int in_sync;
  uintptr_t spin_on;
  long spins;
  uint64_t rand;
  uintptr_t stack_lo, stack_hi;
  vp::sched::Point* log;
  size_t nlog;
};
struct Rt {
  bool ready;
  bool active;       // threads are running under control
  bool recording;
  int n;
  uint32_t epoch;
  int main_turn;     // futex: 1 = all done
  bool stuck;
  Thread t[N];
  Cell* cells;
  size_t ncells;
  SyncVar* syncs;
  char* arena[N + 1];  // 0: main
  size_t used[N + 1];
  size_t sealed;       // used[0] when the threads started
  uintptr_t exe_lo[8], exe_hi[8];
  int nexe;
  uintptr_t text_lo, text_hi;
  long shared_writes, accesses;
  char races[8][1024];
  int nraces;
  struct { int tid; long at; int to; } sw[64];
  int nsw;
  uintptr_t step_page[8];
  struct { uintptr_t page; int hits; } busy[1024];
  int nstep;
  int (*mutex_lock)(pthread_mutex_t*);
  int (*mutex_trylock)(pthread_mutex_t*);
  int (*mutex_unlock)(pthread_mutex_t*);
  void (*absl_lock)(absl::Mutex*);
  bool (*absl_try)(absl::Mutex*);
  void (*absl_unlock)(absl::Mutex*);
  void (*absl_rlock)(absl::Mutex*);
  bool (*absl_rtry)(absl::Mutex*);
  void (*absl_runlock)(absl::Mutex*);
};
Rt* rt;
thread_local int tid = -1;      // index of a controlled thread
thread_local uint64_t main_rand = 1;
constexpr size_t kPage = 4096;

void* Reserve(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { const char m[] = "sched: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  return p;
}
void EarlyInit() {
  if (rt) return;
  Rt* r = static_cast<Rt*>(Reserve(sizeof(Rt)));
  for (int i = 0; i <= N; ++i) r->arena[i] = static_cast<char*>(Reserve(kArenaSize));
  rt = r;
}
// ---------------------------------------------------------------- heap
// Bump allocation, one arena for the main thread and one for each controlled
// thread; nothing is reused, so an address always means the same object.
void* Alloc(size_t n, size_t align) {
  EarlyInit();
  int a = tid + 1;
  uintptr_t base = reinterpret_cast<uintptr_t>(rt->arena[a]);
  uintptr_t p = base + rt->used[a] + 16;
  if (align < 16) align = 16;
  p = (p + align - 1) & ~(align - 1);
  size_t end = p - base + n;
  if (n > kArenaSize || end > kArenaSize) { errno = ENOMEM; return nullptr; }
  *reinterpret_cast<size_t*>(p - 16) = n;
  rt->used[a] = end;
  return reinterpret_cast<void*>(p);
}
size_t SizeOf(void* p) { return *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16); }

// ---------------------------------------------------------------- addresses
bool InArena(uintptr_t a, int i) {
  uintptr_t b = reinterpret_cast<uintptr_t>(rt->arena[i]);
  return a >= b && a < b + kArenaSize;
}
bool Protected(uintptr_t a) {
  uintptr_t b = reinterpret_cast<uintptr_t>(rt->arena[0]);
  if (a >= b && a < b + ((rt->sealed + kPage - 1) & ~(kPage - 1))) return true;
  for (int i = 0; i < rt->nexe; ++i)
    if (a >= rt->exe_lo[i] && a < rt->exe_hi[i]) return true;
  return false;
}
// Memory another thread could be using: everything but the own stack (with the
// thread-local variables, which lie next to it) and the own heap.
bool Shared(uintptr_t a, const Thread& t, int self) {
  if (a >= t.stack_lo && a < t.stack_hi) return false;
  if (InArena(a, self + 1)) return false;
  return true;
}
void Protect(int prot) {
  size_t n = (rt->sealed + kPage - 1) & ~(kPage - 1);
  if (n) mprotect(rt->arena[0], n, prot);
  for (int i = 0; i < rt->nexe; ++i) mprotect(reinterpret_cast<void*>(rt->exe_lo[i]), rt->exe_hi[i] - rt->exe_lo[i], prot);
}

// ---------------------------------------------------------------- hand-over
void Wait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void Wake(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
int NextRunnable(int from) {
  for (int k = 1; k <= rt->n; ++k) {
    int i = (from + k) % rt->n;
    if (!rt->t[i].done && !rt->t[i].blocked) return i;
  }
  return -1;
}
void HandTo(int to) {
  int self = tid;
  if (to == self) return;
  Wake(&rt->t[to].turn);
  Wait(&rt->t[self].turn);
}
bool Controlled() { return rt && rt->active && tid >= 0; }

void PointAt(uint8_t kind, uintptr_t pc) {
  if (!Controlled()) return;
  Thread& t = rt->t[tid];
  if (t.in_sync) return;
  long here = t.points++;
  if (rt->recording && t.nlog < kLogSize) t.log[t.nlog++] = {pc, kind};
  for (int i = 0; i < rt->nsw; ++i)
    if (rt->sw[i].tid == tid && rt->sw[i].at == here) {
      int to = rt->sw[i].to;
      if (!rt->t[to].done && !rt->t[to].blocked) HandTo(to);
    }
}
void Yield() {
  if (!Controlled() || rt->t[tid].in_sync) return;
  int to = NextRunnable(tid);
  if (to >= 0) HandTo(to);
}
// Blocked on something another thread holds.
void Block(uintptr_t on) {
  Thread& t = rt->t[tid];
  t.blocked = true;
  t.blocked_on = on;
  int to = NextRunnable(tid);
  if (to < 0) {
    rt->stuck = true;
    Wake(&rt->main_turn);
    for (;;) pause();
  }
  HandTo(to);
  t.blocked = false;
}
void Unblock(uintptr_t on) {
  for (int i = 0; i < rt->n; ++i)
    if (rt->t[i].blocked && rt->t[i].blocked_on == on) rt->t[i].blocked = false;
}

// ---------------------------------------------------------------- clocks
SyncVar* Sync(uintptr_t a) {
  size_t i = (a * 0x9e3779b97f4a7c15ull) >> 44;
  for (;; i = (i + 1) & 0xfffff) {
    SyncVar& s = rt->syncs[i];
    if (s.epoch != rt->epoch) {
      memset(&s, 0, sizeof s);
      s.epoch = rt->epoch;
      s.addr = a;
      return &s;
    }
    if (s.addr == a) return &s;
  }
}
void AcquireVar(uintptr_t a) { rt->t[tid].clock.Join(Sync(a)->clock); }
void ReleaseVar(uintptr_t a) {
  Thread& t = rt->t[tid];
  Sync(a)->clock.Join(t.clock);
  ++t.clock.c[tid];
}
Cell* At(uintptr_t a) {
  size_t i = (a * 0x9e3779b97f4a7c15ull) >> 42;
  for (;; i = (i + 1) & (kTable - 1)) {
    Cell& c = rt->cells[i];
    if (c.epoch != rt->epoch) {
      if (++rt->ncells > kTable / 2) { rt->ncells = kTable / 2; return nullptr; }
      memset(&c, 0, sizeof c);
      c.epoch = rt->epoch;
      c.addr = a;
      return &c;
    }
    if (c.addr == a) return &c;
  }
}
void ReportRace(uintptr_t a, bool write, uintptr_t pc, int other, bool other_write, uintptr_t other_pc) {
  if (rt->nraces >= 8) return;
  snprintf(rt->races[rt->nraces++], 1024, "%d %d %lx %d %lx %d %lx", write, other_write, (long)pc, other, (long)other_pc, InArena(a, 0) ? 1 : 0, (long)a);
}
void Byte(uintptr_t a, bool write, bool atomic, uintptr_t pc) {
  Cell* c = At(a);
  if (!c) return;
  Thread& t = rt->t[tid];
  for (int o = 0; o < rt->n; ++o) {
    if (o == tid) continue;
    uint32_t seen = t.clock.c[o];
    // Clock values start at 1, so 0 means never.
    if (c->w[o] > seen) ReportRace(a, write, pc, o, true, c->wpc[o]);
    else if (!atomic && c->aw[o] > seen) ReportRace(a, write, pc, o, true, c->wpc[o]);
    else if (write && c->r[o] > seen) ReportRace(a, write, pc, o, false, c->rpc[o]);
    else if (write && !atomic && c->ar[o] > seen) ReportRace(a, write, pc, o, false, c->rpc[o]);
  }
  uint32_t now = t.clock.c[tid];
  if (write) {
    (atomic ? c->aw : c->w)[tid] = now;
    c->wpc[tid] = pc;
  } else {
    (atomic ? c->ar : c->r)[tid] = now;
    c->rpc[tid] = pc;
  }
}
void Access(const void* p, size_t n, bool write, bool atomic, uintptr_t pc) {
  if (!Controlled()) return;
  Thread& t = rt->t[tid];
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!Shared(a, t, tid) || t.in_sync) return;
  ++rt->accesses;
  if (write && !atomic) {
    ++rt->shared_writes;
    PointAt(vp::sched::kShared, pc);
  }
  for (size_t i = 0; i < n; ++i) Byte(a + i, write, atomic, pc);
}

// ---------------------------------------------------------------- writes seen by the page protection
bool LockedInsn(const uint8_t* ip) {
  for (int i = 0; i < 8; ++i, ++ip) {
    if (*ip == 0xf0) return true;
    if (*ip == 0x66 || *ip == 0xf2 || *ip == 0xf3 || *ip == 0x2e || *ip == 0x36 || *ip == 0x3e || *ip == 0x26 || *ip == 0x64 || *ip == 0x65 || (*ip & 0xf0) == 0x40) continue;
    return *ip == 0x86 || *ip == 0x87;
  }
  return false;
}
// Code of other libraries that stores to atomic variables with plain
// instructions: Abseil's registries and protobuf's cached sizes.
bool LibraryAtomic(uintptr_t ip) {
  Dl_info d;
  if (!dladdr(reinterpret_cast<void*>(ip), &d) || !d.dli_fname) return false;
  if (strstr(d.dli_fname, "libabsl")) return true;
  if (!strstr(d.dli_fname, "libprotobuf")) return false;
  return d.dli_sname && (strstr(d.dli_sname, "ByteSize") || strstr(d.dli_sname, "CachedSize") || strstr(d.dli_sname, "UnknownFieldsSize"));
}
void OnSegv(int sig, siginfo_t* si, void* ucv) {
  ucontext_t* uc = static_cast<ucontext_t*>(ucv);
  uintptr_t a = reinterpret_cast<uintptr_t>(si->si_addr);
  if (!rt->active || tid < 0 || !Protected(a) || rt->nstep >= 8 || si->si_code != SEGV_ACCERR) {
    signal(sig, SIG_DFL);
    return;
  }
  uintptr_t ip = uc->uc_mcontext.gregs[REG_RIP];
  Thread& t = rt->t[tid];
  if (!t.in_sync) {
    ++t.in_sync;
    bool locked = LockedInsn(reinterpret_cast<const uint8_t*>(ip)) || LibraryAtomic(ip);
    --t.in_sync;
    ++rt->accesses;
    if (!locked) ++rt->shared_writes;
    Byte(a, true, locked, ip);
  }
  uintptr_t page = a & ~(kPage - 1);
  mprotect(reinterpret_cast<void*>(page), kPage, PROT_READ | PROT_WRITE);
  // Single steps are slow: a page that instrumented code writes again and again
  // stays open for the rest of the run.
  if (ip >= rt->text_lo && ip < rt->text_hi) {
    auto& b = rt->busy[(page / kPage) % 1024];
    if (b.page != page) b.page = page, b.hits = 0;
    if (++b.hits > 40) return;
  }
  rt->step_page[rt->nstep++] = page;
  uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void OnTrap(int, siginfo_t*, void* ucv) {
  ucontext_t* uc = static_cast<ucontext_t*>(ucv);
  for (int i = 0; i < rt->nstep; ++i) mprotect(reinterpret_cast<void*>(rt->step_page[i]), kPage, PROT_READ);
  rt->nstep = 0;
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ull;
}
void FindImage() {
  FILE* f = fopen("/proc/self/maps", "r");
  char line[1024], exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  uintptr_t last_hi = 0;
  while (f && fgets(line, sizeof line, f)) {
    unsigned long lo, hi;
    char perm[8], path[600] = "";
    if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %599s", &lo, &hi, perm, path) < 3) continue;
    bool mine = strcmp(path, exe) == 0;
    if (mine && perm[2] == 'x') {
      if (!rt->text_lo) rt->text_lo = lo;
      rt->text_hi = hi;
    }
    if ((mine || (path[0] == 0 && lo == last_hi)) && strncmp(perm, "rw", 2) == 0 && rt->nexe < 8) {
      rt->exe_lo[rt->nexe] = lo;
      rt->exe_hi[rt->nexe++] = hi;
      last_hi = hi;
    } else if (mine) {
      last_hi = hi;
    }
  }
  if (f) fclose(f);
}
struct Start {
  const std::function<void()>* fn;
  int id;
};
void* Main(void* p) {
  Start s = *static_cast<Start*>(p);
  Thread& t = rt->t[s.id];
  pthread_attr_t attr;
  pthread_getattr_np(pthread_self(), &attr);
  void* lo;
  size_t size;
  pthread_attr_getstack(&attr, &lo, &size);
  pthread_attr_destroy(&attr);
  t.stack_lo = reinterpret_cast<uintptr_t>(lo);
  // Thread-local variables and the thread's descriptor lie right above.
  __atomic_store_n(&t.stack_hi, reinterpret_cast<uintptr_t>(lo) + size + 16 * kPage, __ATOMIC_RELEASE);
  Wait(&t.turn);
  tid = s.id;
  (*s.fn)();
  int self = tid;
  t.done = true;
  int to = NextRunnable(self);
  tid = -1;  // what follows is thread shutdown
  if (to >= 0) Wake(&rt->t[to].turn);
  else Wake(&rt->main_turn);
  Wait(&t.turn);
  return nullptr;
}
}  // namespace

namespace vp {
namespace sched {
void Init() {
  EarlyInit();
  rt->cells = static_cast<Cell*>(Reserve(kTable * sizeof(Cell)));
  rt->syncs = static_cast<SyncVar*>(Reserve(0x100000 * sizeof(SyncVar)));
  for (auto& t : rt->t) t.log = static_cast<Point*>(Reserve(kLogSize * sizeof(Point)));
  auto sym = [](const std::string& s) { return dlsym(RTLD_NEXT, s.c_str()); };
  rt->mutex_lock = reinterpret_cast<int (*)(pthread_mutex_t*)>(sym("pthread_mutex_lock"));
  rt->mutex_trylock = reinterpret_cast<int (*)(pthread_mutex_t*)>(sym("pthread_mutex_trylock"));
  rt->mutex_unlock = reinterpret_cast<int (*)(pthread_mutex_t*)>(sym("pthread_mutex_unlock"));
  void* backtrace_warm[2];
  backtrace(backtrace_warm, 2);
  FindImage();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sa.sa_sigaction = OnSegv;
  sigaction(SIGSEGV, &sa, nullptr);
  sa.sa_sigaction = OnTrap;
  sigaction(SIGTRAP, &sa, nullptr);
  rt->epoch = 1;
  rt->ready = true;
}
void SetRand(uint64_t s) {
  if (tid >= 0) rt->t[tid].rand = s;
  else main_rand = s;
}
std::string Where(uintptr_t pc) {
  Dl_info d;
  char buf[64];
  if (!dladdr(reinterpret_cast<void*>(pc), &d)) { snprintf(buf, sizeof buf, "%lx", (long)pc); return buf; }
  const char* base = strrchr(d.dli_fname, '/');
  std::string r = base ? base + 1 : d.dli_fname;
  if (d.dli_sname) {
    int st;
    char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    r += std::string(":") + (n ? n : d.dli_sname);
  }
  return r.substr(0, 300);
}
Run Execute(const std::vector<std::function<void()>>& fns, int first, const std::vector<Switch>& schedule, bool record, const uint64_t* streams) {
  Run out;
  int n = fns.size();
  Start st[N];
  pthread_t th[N];
  rt->n = n;
  ++rt->epoch;
  rt->ncells = 0;
  rt->nraces = 0;
  rt->stuck = false;
  rt->shared_writes = rt->accesses = 0;
  rt->recording = record;
  rt->nsw = 0;
  rt->nstep = 0;
  for (auto& b : rt->busy) b.hits = 0;
  rt->main_turn = 0;
  for (auto& s : schedule)
    if (rt->nsw < 64) rt->sw[rt->nsw].tid = s.tid, rt->sw[rt->nsw].at = s.at, rt->sw[rt->nsw++].to = s.to;
  for (int i = 0; i < n; ++i) {
    Thread& t = rt->t[i];
    Point* log = t.log;
    memset(&t, 0, sizeof t);
    t.log = log;
    t.rand = streams[i];
    for (int k = 0; k < n; ++k) t.clock.c[k] = 0;
    t.clock.c[i] = 1;
    st[i] = {&fns[i], i};
  }
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 4 << 20);
  for (int i = 0; i < n; ++i) {
    pthread_create(&th[i], &attr, Main, &st[i]);
    // One at a time: start-up allocates from the main heap.
    while (__atomic_load_n(&rt->t[i].stack_hi, __ATOMIC_ACQUIRE) == 0) sched_yield();
  }
  pthread_attr_destroy(&attr);
  rt->sealed = rt->used[0];
  // Later allocations of the main thread go to fresh pages.
  rt->used[0] = (rt->used[0] + 2 * kPage - 1) & ~(kPage - 1);
  Protect(PROT_READ);
  __atomic_store_n(&rt->active, true, __ATOMIC_SEQ_CST);
  Wake(&rt->t[first].turn);
  // Bounded wait: a thread that blocks in a way the runtime does not know.
  timespec limit = {60, 0};
  while (__atomic_load_n(&rt->main_turn, __ATOMIC_ACQUIRE) == 0)
    if (syscall(SYS_futex, &rt->main_turn, FUTEX_WAIT, 0, &limit, nullptr, 0) != 0 && errno == ETIMEDOUT) { rt->stuck = true; break; }
  __atomic_store_n(&rt->active, false, __ATOMIC_SEQ_CST);
  Protect(PROT_READ | PROT_WRITE);
  out.stuck = rt->stuck;
  if (!rt->stuck)
    for (int i = 0; i < n; ++i) {
      Wake(&rt->t[i].turn);
      pthread_join(th[i], nullptr);
    }
  out.shared_writes = rt->shared_writes;
  out.accesses = rt->accesses;
  for (int i = 0; i < n; ++i) {
    out.points[i] = rt->t[i].points;
    if (record) out.log[i].assign(rt->t[i].log, rt->t[i].log + rt->t[i].nlog);
  }
  for (int i = 0; i < rt->nraces; ++i) {
    int w, ow, o, heap;
    long pc, opc, a;
    if (sscanf(rt->races[i], "%d %d %lx %d %lx %d %lx", &w, &ow, &pc, &o, &opc, &heap, &a) != 7) continue;
    std::string s = std::string(w ? "write" : "read") + " in " + Where(pc) + " and " + (ow ? "write" : "read") + " in " + Where(opc) + (heap ? " of a heap object" : " of static or other memory");
    bool dup = false;
    for (auto& x : out.races) dup |= x == s;
    if (!dup) out.races.push_back(s);
  }
  return out;
}
}  // namespace sched
}  // namespace vp

// ---------------------------------------------------------------- interposed functions
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void* malloc(size_t n) { return Alloc(n, 16); }
void free(void*) {}
void* calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  return Alloc(a * b, 16);  // fresh pages are zero and nothing is reused
}
void* realloc(void* p, size_t n) {
  void* q = Alloc(n, 16);
  if (p && q) {
    size_t o = SizeOf(p);
    memcpy(q, p, o < n ? o : n);
  }
  return q;
}
int posix_memalign(void** out, size_t align, size_t n) {
  void* p = Alloc(n, align);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* aligned_alloc(size_t align, size_t n) { return Alloc(n, align); }
void* memalign(size_t align, size_t n) { return Alloc(n, align); }
void* valloc(size_t n) { return Alloc(n, kPage); }
size_t malloc_usable_size(void* p) { return p ? SizeOf(p) : 0; }

int RAND_bytes(uint8_t* buf, size_t len) {
  Access(buf, len, true, false, PC);
  PointAt(vp::sched::kCrypto, PC);
  uint64_t& s = Controlled() ? rt->t[tid].rand : main_rand;
  for (size_t i = 0; i < len; ++i) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t x = s ^ (s >> 29);
    buf[i] = static_cast<uint8_t>((x * 0xbf58476d1ce4e5b9ull) >> 40);
  }
  return 1;
}

// Locks. Blocking is decided by the scheduler.
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!rt || !rt->mutex_lock) return 0;  // single-threaded start-up
  if (!Controlled()) return rt->mutex_lock(m);
  PointAt(vp::sched::kSync, PC);
  Thread& t = rt->t[tid];
  for (;;) {
    ++t.in_sync;
    int r = rt->mutex_trylock(m);
    --t.in_sync;
    if (r != EBUSY) {
      AcquireVar(reinterpret_cast<uintptr_t>(m));
      return r;
    }
    Block(reinterpret_cast<uintptr_t>(m));
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!rt || !rt->mutex_lock) return 0;
  if (!Controlled()) return rt->mutex_trylock(m);
  PointAt(vp::sched::kSync, PC);
  Thread& t = rt->t[tid];
  ++t.in_sync;
  int r = rt->mutex_trylock(m);
  --t.in_sync;
  if (r == 0) AcquireVar(reinterpret_cast<uintptr_t>(m));
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!rt || !rt->mutex_lock) return 0;
  if (!Controlled()) return rt->mutex_unlock(m);
  Thread& t = rt->t[tid];
  ReleaseVar(reinterpret_cast<uintptr_t>(m));
  ++t.in_sync;
  int r = rt->mutex_unlock(m);
  --t.in_sync;
  Unblock(reinterpret_cast<uintptr_t>(m));
  PointAt(vp::sched::kSync, PC);
  return r;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  int* s = reinterpret_cast<int*>(o);
  uintptr_t a = reinterpret_cast<uintptr_t>(o);
  bool c = Controlled();
  for (;;) {
    if (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 2) {
      if (c) AcquireVar(a);
      return 0;
    }
    if (*s == 0) break;
    if (c) Block(a);
  }
  auto set = [&](int v) {
    if (c) ++rt->t[tid].in_sync;
    __atomic_store_n(s, v, __ATOMIC_RELEASE);
    if (c) --rt->t[tid].in_sync;
  };
  set(1);
  if (c) PointAt(vp::sched::kSync, PC);
  try {
    fn();
  } catch (...) {
    set(0);
    if (c) Unblock(a);
    throw;
  }
  if (c) ReleaseVar(a);
  set(2);
  if (c) Unblock(a);
  return 0;
}
int sched_yield() {
  if (Controlled() && !rt->t[tid].in_sync) Yield();
  else syscall(SYS_sched_yield);
  return 0;
}
// Guards of function-local statics.
int __cxa_guard_acquire(char* g) {
  uintptr_t a = reinterpret_cast<uintptr_t>(g);
  bool c = Controlled();
  for (;;) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) {
      if (c) AcquireVar(a);
      return 0;
    }
    if (!g[1]) break;
    if (c) Block(a);
  }
  if (c) ++rt->t[tid].in_sync;
  g[1] = 1;
  if (c) --rt->t[tid].in_sync;
  if (c) PointAt(vp::sched::kSync, PC);
  return 1;
}
void __cxa_guard_release(char* g) {
  uintptr_t a = reinterpret_cast<uintptr_t>(g);
  bool c = Controlled();
  if (c) {
    ReleaseVar(a);
    ++rt->t[tid].in_sync;
  }
  g[1] = 0;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (c) {
    --rt->t[tid].in_sync;
    Unblock(a);
    PointAt(vp::sched::kSync, PC);
  }
}
void __cxa_guard_abort(char* g) {
  bool c = Controlled();
  if (c) ++rt->t[tid].in_sync;
  g[1] = 0;
  if (c) --rt->t[tid].in_sync, Unblock(reinterpret_cast<uintptr_t>(g));
}

// Accesses the compiler reports.
void __tsan_init() {}
void __tsan_func_entry(void*) { PointAt(vp::sched::kEntry, PC); }
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { Access(p, n, false, false, PC); }             \
  void __tsan_write##n(void* p) { Access(p, n, true, false, PC); }             \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false, false, PC); }   \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true, false, PC); }   \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false, false, PC); }    \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true, false, PC); }    \
  void __tsan_read##n##_pc(void* p, void*) { Access(p, n, false, false, PC); } \
  void __tsan_write##n##_pc(void* p, void*) { Access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { Access(p, n, true, false, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access(p, 8, true, false, PC);
}
// Block operations reach the C library.
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  Access(s, n, false, false, PC);
  Access(d, n, true, false, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  Access(s, n, false, false, PC);
  Access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  Access(d, n, true, false, PC);
  return __real_memset(d, v, n);
}
}  // extern "C"

namespace {
enum { kRelaxed, kConsume, kAcquire, kRelease, kAcqRel, kSeqCst };
struct Atomically {
  uintptr_t a;
  bool c;
  int mo;
  Atomically(const volatile void* p, size_t n, bool write, int mo, uintptr_t pc) : a(reinterpret_cast<uintptr_t>(p)), c(Controlled()), mo(mo) {
    if (!c) return;
    if (!Shared(a, rt->t[tid], tid)) { c = false; return; }
    PointAt(vp::sched::kSync, pc);
    Thread& t = rt->t[tid];
    if (t.spin_on != a) t.spin_on = a, t.spins = 0;
    if (++t.spins % 1000 == 0) Yield();  // waiting for another thread
    Access(const_cast<const void*>(p), n, write, true, pc);
    if (write && (mo == kRelease || mo == kAcqRel || mo == kSeqCst)) ReleaseVar(a);
    ++rt->t[tid].in_sync;
  }
  void After(bool read) {
    if (!c) return;
    --rt->t[tid].in_sync;
    if (read && mo != kRelaxed && mo != kRelease) AcquireVar(a);
  }
};
}  // namespace
#define ATOMIC(bits, T)                                                                                       \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                                 \
    Atomically s(p, sizeof(T), false, mo, PC);                                                                \
    T r = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                               \
    s.After(true);                                                                                            \
    return r;                                                                                                 \
  }                                                                                                           \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                              \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                 \
    s.After(false);                                                                                           \
  }                                                                                                           \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                                              \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                        \
    s.After(true);                                                                                            \
    return r;                                                                                                 \
  }                                                                                                           \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) {                  \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
    s.After(true);                                                                                            \
    return r;                                                                                                 \
  }                                                                                                           \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) {                    \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
    s.After(true);                                                                                            \
    return r;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) {                        \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    s.After(true);                                                                                            \
    return e;                                                                                                 \
  }
#define FETCH(bits, T, op)                                                                                    \
  T __tsan_atomic##bits##_fetch_##op(volatile T* p, T v, int mo) {                                            \
    Atomically s(p, sizeof(T), true, mo, PC);                                                                 \
    T r = __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                                                        \
    s.After(true);                                                                                            \
    return r;                                                                                                 \
  }
#define ALL(bits, T) ATOMIC(bits, T) FETCH(bits, T, add) FETCH(bits, T, sub) FETCH(bits, T, and) FETCH(bits, T, or) FETCH(bits, T, xor) FETCH(bits, T, nand)
extern "C" {
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) { PointAt(vp::sched::kSync, PC); }
void __tsan_atomic_signal_fence(int) {}
}

// absl::Mutex lives in a shared library that is not instrumented.
namespace {
template <typename Fn>
Fn AbslSym(const char* name) {
#define STR2(x) #x
#define STR(x) STR2(x)
  const char* ns = STR(ABSL_OPTION_INLINE_NAMESPACE_NAME);
  char buf[256];
  snprintf(buf, sizeof buf, "_ZN4absl%zu%s5Mutex%s", strlen(ns), ns, name);
  return reinterpret_cast<Fn>(dlsym(RTLD_NEXT, buf));
}
void LoadAbsl() {
  if (rt->absl_lock) return;
  rt->absl_try = AbslSym<bool (*)(absl::Mutex*)>("7TryLockEv");
  rt->absl_unlock = AbslSym<void (*)(absl::Mutex*)>("6UnlockEv");
  rt->absl_rlock = AbslSym<void (*)(absl::Mutex*)>("10ReaderLockEv");
  rt->absl_rtry = AbslSym<bool (*)(absl::Mutex*)>("13ReaderTryLockEv");
  rt->absl_runlock = AbslSym<void (*)(absl::Mutex*)>("12ReaderUnlockEv");
  rt->absl_lock = AbslSym<void (*)(absl::Mutex*)>("4LockEv");
}
void LockWith(absl::Mutex* m, bool (*tr)(absl::Mutex*)) {
  PointAt(vp::sched::kSync, PC);
  Thread& t = rt->t[tid];
  for (;;) {
    ++t.in_sync;
    bool ok = tr(m);
    --t.in_sync;
    if (ok) {
      AcquireVar(reinterpret_cast<uintptr_t>(m));
      return;
    }
    Block(reinterpret_cast<uintptr_t>(m));
  }
}
void UnlockWith(absl::Mutex* m, void (*un)(absl::Mutex*)) {
  Thread& t = rt->t[tid];
  ReleaseVar(reinterpret_cast<uintptr_t>(m));
  ++t.in_sync;
  un(m);
  --t.in_sync;
  Unblock(reinterpret_cast<uintptr_t>(m));
  PointAt(vp::sched::kSync, PC);
}
}  // namespace
namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { EarlyInit(); LoadAbsl(); Controlled() ? LockWith(this, rt->absl_try) : rt->absl_lock(this); }
void Mutex::Unlock() { EarlyInit(); LoadAbsl(); Controlled() ? UnlockWith(this, rt->absl_unlock) : rt->absl_unlock(this); }
void Mutex::ReaderLock() { EarlyInit(); LoadAbsl(); Controlled() ? LockWith(this, rt->absl_rtry) : rt->absl_rlock(this); }
void Mutex::ReaderUnlock() { EarlyInit(); LoadAbsl(); Controlled() ? UnlockWith(this, rt->absl_runlock) : rt->absl_runlock(this); }
bool Mutex::TryLock() {
  EarlyInit();
  LoadAbsl();
  bool c = Controlled();
  if (c) ++rt->t[tid].in_sync;
  bool ok = rt->absl_try(this);
  if (c) --rt->t[tid].in_sync;
  if (c && ok) AcquireVar(reinterpret_cast<uintptr_t>(this));
  return ok;
}
ABSL_NAMESPACE_END
}  // namespace absl
