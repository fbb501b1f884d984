// Controlled execution of several threads: every thread runs alone until the
// explorer hands control to another one at a chosen point.
//
// The code under test is compiled with -fsanitize=thread; the calls the compiler
// inserts arrive in threads_rt.cc, which keeps vector clocks and reports two
// accesses of one byte that no synchronization orders. Memory that exists before
// the threads start (heap, globals) is write-protected while they run, so that
// writes by code that is not instrumented (libcrypto, libstdc++) are seen too.
#ifndef VP_THREADS_H_
#define VP_THREADS_H_
#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace vp {
namespace sched {
constexpr int kMaxThreads = 3;
// Hand control from thread `tid` to thread `to` at the `at`-th point of `tid`.
struct Switch {
  int tid;
  long at;
  int to;
};
// Kinds of points.
enum PointKind : uint8_t { kEntry = 1, kCrypto = 2, kSync = 4, kShared = 8 };
struct Point {
  uintptr_t pc;
  uint8_t kind;
};
struct Run {
  bool stuck = false;
  std::vector<std::string> races;
  long shared_writes = 0;              // writes to memory older than the threads
  long accesses = 0;                   // instrumented accesses to shared memory
  long points[kMaxThreads] = {0, 0, 0};
  std::vector<Point> log[kMaxThreads]; // if recording
};
void Init();  // once, before anything else
// Runs fns[i] as thread i under the given schedule. first: the thread that
// starts; a thread that ends hands over to the next unfinished one.
Run Execute(const std::vector<std::function<void()>>& fns, int first, const std::vector<Switch>& schedule, bool record, const uint64_t* rand_streams);
void SetRand(uint64_t stream);  // random source of the calling thread
std::string Where(uintptr_t pc);
}  // namespace sched
}  // namespace vp
#endif
