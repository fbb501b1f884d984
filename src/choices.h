// The outcomes of the random eviction choices, explored in depth-first order.
// Only effective in binaries built with compat/vp_choice_rng.h.
#ifndef VP_CHOICES_H_
#define VP_CHOICES_H_
#include <algorithm>
#include <vector>

#include "vp.h"
using namespace vp;
namespace {
// The choices of the current execution: a script, extended with zeros.
struct Choices {
  std::vector<int> script;
  size_t pos = 0;
  int arity = 2;
  bool pseudo = false;  // a fixed sequence instead of a script
  uint64_t state = 1;
  void Restart() { pos = 0; state = 1; }
  // Advances to the next unexplored script; false if there is none.
  bool Next() {
    script.resize(std::min(script.size(), pos));
    while (!script.empty()) {
      if (++script.back() < arity) return true;
      script.pop_back();
    }
    return false;
  }
};
Choices& C() {
  static Choices* c = new Choices;
  return *c;
}
}  // namespace
extern "C" uint64_t vp_choice() {
  Choices& c = C();
  if (c.pseudo) return Mix(++c.state);
  if (c.pos == c.script.size()) c.script.push_back(0);
  int j = c.script[c.pos++];
  Trans();
  // A raw value that a uniform distribution over `arity` outcomes, whichever
  // way it reduces (high part, low bits or remainder), maps to the different outcomes.
  uint64_t k = c.arity;
  uint32_t w = static_cast<uint32_t>(((uint64_t(j) << 32) + (uint64_t(1) << 31)) / k);
  int mask = 1;
  while (mask < (int)k) mask *= 2;
  w = (w & ~uint32_t(mask - 1)) | j;
  return (uint64_t(w) << 32) | w;
}

#endif
