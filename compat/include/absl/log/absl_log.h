// Compatibility layer for harness builds only: the sandbox's Abseil (20220623)
// predates absl/log. Logging is a side channel; streams are evaluated lazily
// and discarded (except FATAL, which aborts).
#ifndef VERIF_COMPAT_ABSL_LOG_H_
#define VERIF_COMPAT_ABSL_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "absl/status/status.h"
#include "absl/time/time.h"

namespace iamf_verif_compat {
struct NullLog {
  template <typename T>
  const NullLog& operator<<(const T&) const { return *this; }
  const NullLog& operator<<(std::ostream& (*)(std::ostream&)) const {
    return *this;
  }
  template <typename... A> const NullLog& AtLocation(A&&...) const { return *this; }
  const NullLog& WithPerror() const { return *this; }
  const NullLog& NoPrefix() const { return *this; }
};
struct Voidify {
  void operator&&(const NullLog&) const {}
};
// Aborts on destruction, as a FATAL log line does.
struct FatalLog {
  explicit FatalLog(const char* file, int line, const char* what) {
    std::fprintf(stderr, "FATAL %s:%d: %s\n", file, line, what);
  }
  template <typename T>
  const FatalLog& operator<<(const T&) const { return *this; }
  const FatalLog& operator<<(std::ostream& (*)(std::ostream&)) const {
    return *this;
  }
  [[noreturn]] ~FatalLog() { std::abort(); }
};
struct VoidifyFatal {
  void operator&&(const FatalLog&) const {}
};
}  // namespace iamf_verif_compat

#define VERIF_LOG_NULL_ \
  true ? (void)0 : ::iamf_verif_compat::Voidify() && ::iamf_verif_compat::NullLog()
#define VERIF_LOG_FATAL_(what)            \
  ::iamf_verif_compat::VoidifyFatal() &&  \
      ::iamf_verif_compat::FatalLog(__FILE__, __LINE__, what)
#define VERIF_LOG_INFO VERIF_LOG_NULL_
#define VERIF_LOG_WARNING VERIF_LOG_NULL_
#define VERIF_LOG_ERROR VERIF_LOG_NULL_
#define VERIF_LOG_DFATAL VERIF_LOG_NULL_
#define VERIF_LOG_FATAL VERIF_LOG_FATAL_("LOG(FATAL)")
#define VERIF_LOG_QFATAL VERIF_LOG_FATAL_("LOG(QFATAL)")
#define VERIF_LOG_LEVEL(x) VERIF_LOG_NULL_

#define ABSL_LOG(sev) VERIF_LOG_##sev
#define ABSL_DLOG(sev) VERIF_LOG_NULL_
#define ABSL_PLOG(sev) VERIF_LOG_##sev
#define ABSL_LOG_IF(sev, cond) !(cond) ? (void)0 : VERIF_LOG_##sev
#define ABSL_LOG_FIRST_N(sev, n) VERIF_LOG_##sev
#define ABSL_LOG_EVERY_N(sev, n) VERIF_LOG_##sev
#define ABSL_LOG_EVERY_POW_2(sev) VERIF_LOG_##sev
#define ABSL_LOG_EVERY_N_SEC(sev, n) VERIF_LOG_##sev
#define ABSL_LOG_IF_FIRST_N(sev, cond, n) ABSL_LOG_IF(sev, cond)
#define ABSL_LOG_IF_EVERY_N(sev, cond, n) ABSL_LOG_IF(sev, cond)
#define ABSL_LOG_IF_EVERY_POW_2(sev, cond) ABSL_LOG_IF(sev, cond)
#define ABSL_LOG_IF_EVERY_N_SEC(sev, cond, n) ABSL_LOG_IF(sev, cond)
#define ABSL_VLOG(n) VERIF_LOG_NULL_
#define ABSL_DVLOG(n) VERIF_LOG_NULL_
#define ABSL_VLOG_IS_ON(n) false
#define LOG(sev) ABSL_LOG(sev)
#endif
