// Memory whose end touches an inaccessible page, so that any access past the
// end of an array faults.
#ifndef VP_GUARD_H_
#define VP_GUARD_H_
#include <string.h>
#include <sys/mman.h>

#include <cstdint>
#include <cstddef>
#include <new>

namespace vp {
class Guarded {
 public:
  explicit Guarded(size_t cap) : cap_((cap + 4095) / 4096 * 4096 + 4096) {
    base_ = static_cast<uint8_t*>(mmap(nullptr, cap_ + 8192, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base_, 4096, PROT_NONE);
    mprotect(base_ + 4096 + cap_, 4096, PROT_NONE);
  }
  ~Guarded() { munmap(base_, cap_ + 8192); }
  // The last n bytes before the inaccessible page.
  uint8_t* End(size_t n) { return base_ + 4096 + cap_ - n; }
  // n bytes at the given residue modulo 256, as close to the end as possible.
  uint8_t* At(size_t n, size_t residue) {
    uintptr_t p = reinterpret_cast<uintptr_t>(End(n));
    uintptr_t q = p - ((p - residue) & 255);
    return reinterpret_cast<uint8_t*>(q);
  }
  void Fill(uint8_t c) { memset(base_ + 4096, c, cap_); }
  uint8_t* begin() { return base_ + 4096; }
  uint8_t* end() { return base_ + 4096 + cap_; }

 private:
  size_t cap_;
  uint8_t* base_;
};
}  // namespace vp
#endif
