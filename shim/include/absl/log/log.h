// Stand-in for absl/log/log.h (the installed abseil predates absl/log).
// LOG(x) messages are formatted and dropped, LOG(FATAL) aborts.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>

namespace verif_shim {
class LogMessage {
 public:
  explicit LogMessage(const char* sev, bool fatal) : sev_(sev), fatal_(fatal) {}
  ~LogMessage() {
    if (fatal_ || std::getenv("VERIF_SHIM_LOG"))
      std::fprintf(stderr, "%s: %s\n", sev_, s_.str().c_str());
    if (fatal_) std::abort();
  }
  std::ostream& stream() { return s_; }

 private:
  const char* sev_;
  bool fatal_;
  std::ostringstream s_;
};
struct Voidify {
  void operator&(std::ostream&) {}
};
}  // namespace verif_shim

#define VERIF_SHIM_SEV_INFO false
#define VERIF_SHIM_SEV_WARNING false
#define VERIF_SHIM_SEV_ERROR false
#define VERIF_SHIM_SEV_FATAL true
#define LOG(sev) \
  ::verif_shim::LogMessage(#sev, VERIF_SHIM_SEV_##sev).stream()

#include "absl/log/check.h"
#endif
