// Owns the system's random source: every RAND_bytes call of the code under test
// is answered from a stream the harness chooses. Interposes libcrypto's symbol.
#ifndef VP_RAND_H_
#define VP_RAND_H_
#include <stdint.h>
#include <string.h>

#include <deque>
#include <string>
#include <vector>

#include "vp.h"

namespace vp {
struct Rand {
  enum Mode { kStream, kConst, kCounter } mode = kStream;
  uint64_t state = 1;
  uint8_t constant = 0;
  std::string script;      // bytes handed out before the stream continues
  size_t script_pos = 0;
  bool record = false;
  std::string log;         // every byte handed out, if record
  std::vector<size_t> calls;
  int fail_at = -1;        // index of the call that fails (-1: none)
  int ncalls = 0;

  void Reset(uint64_t seed) {
    *this = Rand();
    state = Mix(seed + 77);
  }
  void ResetConst(uint8_t c) {
    *this = Rand();
    mode = kConst;
    constant = c;
  }
  void ResetScript(const std::string& s, uint64_t seed = 5) {
    Reset(seed);
    script = s;
  }
  int Fill(uint8_t* buf, size_t n) {
    int call = ncalls++;
    if (call == fail_at) return 0;
    for (size_t i = 0; i < n; ++i) {
      if (script_pos < script.size()) buf[i] = script[script_pos++];
      else if (mode == kConst) buf[i] = constant;
      else if (mode == kCounter) buf[i] = static_cast<uint8_t>(state++);
      else {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        buf[i] = static_cast<uint8_t>(Mix(state) >> 24);
      }
    }
    if (record) {
      log.append(reinterpret_cast<char*>(buf), n);
      calls.push_back(n);
    }
    return 1;
  }
};
inline Rand& R() {
  static Rand* r = new Rand;
  return *r;
}
}  // namespace vp

extern "C" __attribute__((weak, noinline)) int RAND_bytes(uint8_t* buf, size_t n) {
  return vp::R().Fill(buf, n);
}
#endif
