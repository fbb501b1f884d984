// Stand-in for Abseil's absl/log/absl_log.h (see absl_check.h).  Non-fatal
// messages are formatted and dropped.
#ifndef VP_COMPAT_ABSL_LOG_ABSL_LOG_H_
#define VP_COMPAT_ABSL_LOG_ABSL_LOG_H_
#include "absl/log/absl_check.h"
namespace vp_compat {
class NonFatalMessage {
 public:
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
};
}  // namespace vp_compat
#define VP_LOG_INFO ::vp_compat::NonFatalMessage().stream()
#define VP_LOG_WARNING ::vp_compat::NonFatalMessage().stream()
#define VP_LOG_ERROR ::vp_compat::NonFatalMessage().stream()
#define VP_LOG_DFATAL ::vp_compat::FatalMessage(__FILE__, __LINE__, "DFATAL").stream()
#define VP_LOG_FATAL ::vp_compat::FatalMessage(__FILE__, __LINE__, "FATAL").stream()
#define VP_LOG_QFATAL VP_LOG_FATAL
#define ABSL_LOG(sev) ::vp_compat::Voidify() & VP_LOG_##sev
#define ABSL_LOG_IF(sev, cond) !(cond) ? (void)0 : ABSL_LOG(sev)
#define ABSL_LOG_FIRST_N(sev, n) ABSL_LOG(sev)
#define ABSL_LOG_EVERY_N(sev, n) ABSL_LOG(sev)
#define ABSL_VLOG(n) ABSL_LOG(INFO)
#define ABSL_DLOG ABSL_LOG
#endif
