// Stand-in for Abseil's absl/log/absl_check.h, which the installed Abseil
// (20220623) does not have.  Same observable behaviour: a failed check writes
// to stderr and aborts; DCHECKs are active unless NDEBUG is defined.
#ifndef VP_COMPAT_ABSL_LOG_ABSL_CHECK_H_
#define VP_COMPAT_ABSL_LOG_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
namespace vp_compat {
class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* what) {
    os_ << "CHECK failure " << file << ":" << line << ": " << what << " ";
  }
  [[noreturn]] ~FatalMessage() {
    std::string s = os_.str();
    std::fprintf(stderr, "%s\n", s.c_str());
    std::fflush(stderr);
    std::abort();
  }
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
};
struct Voidify {
  void operator&(std::ostream&) const {}
};
template <typename S> bool StatusIsOk(const S& s) { return s.ok(); }
class NullStream : public std::ostream {
 public:
  NullStream() : std::ostream(nullptr) {}
};
}  // namespace vp_compat
#define ABSL_CHECK(cond)                 \
  (cond) ? (void)0                       \
         : ::vp_compat::Voidify() &      \
               ::vp_compat::FatalMessage(__FILE__, __LINE__, #cond).stream()
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK(::vp_compat::StatusIsOk(s))
#define ABSL_QCHECK ABSL_CHECK
#ifndef NDEBUG
#define ABSL_DCHECK(cond) ABSL_CHECK(cond)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#else
#define ABSL_DCHECK(cond) ABSL_CHECK(true || (cond))
#define ABSL_DCHECK_OK(s) ABSL_CHECK(true || ::vp_compat::StatusIsOk(s))
#endif
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#endif
