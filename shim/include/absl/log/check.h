// Stand-in for absl/log/check.h (the installed abseil predates absl/log).
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define CHECK(c)                      \
  (__builtin_expect(!!(c), 1))        \
      ? (void)0                       \
      : ::verif_shim::Voidify() &     \
            ::verif_shim::LogMessage("CHECK failed: " #c, true).stream()
#endif
