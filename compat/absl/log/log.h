#ifndef VP_COMPAT_ABSL_LOG_LOG_H_
#define VP_COMPAT_ABSL_LOG_LOG_H_
#include "absl/log/absl_log.h"
#ifndef LOG
#define LOG ABSL_LOG
#define LOG_IF ABSL_LOG_IF
#define LOG_FIRST_N ABSL_LOG_FIRST_N
#endif
#endif
