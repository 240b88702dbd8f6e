#ifndef VERIF_COMPAT_ABSL_CHECK_H_
#define VERIF_COMPAT_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace iamf_verif_compat {
inline bool IsOk(const absl::Status& s) { return s.ok(); }
template <typename T>
bool IsOk(const absl::StatusOr<T>& s) { return s.ok(); }
}  // namespace iamf_verif_compat
#define ABSL_CHECK(c) (c) ? (void)0 : VERIF_LOG_FATAL_("CHECK(" #c ")")
#define ABSL_CHECK_OP_(a, op, b) \
  ((a)op(b)) ? (void)0 : VERIF_LOG_FATAL_("CHECK(" #a " " #op " " #b ")")
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK_OP_(a, ==, b)
#define ABSL_CHECK_NE(a, b) ABSL_CHECK_OP_(a, !=, b)
#define ABSL_CHECK_LT(a, b) ABSL_CHECK_OP_(a, <, b)
#define ABSL_CHECK_LE(a, b) ABSL_CHECK_OP_(a, <=, b)
#define ABSL_CHECK_GT(a, b) ABSL_CHECK_OP_(a, >, b)
#define ABSL_CHECK_GE(a, b) ABSL_CHECK_OP_(a, >=, b)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_CHECK_OK(s)                             \
  (::iamf_verif_compat::IsOk(s)) ? (void)0           \
                                 : VERIF_LOG_FATAL_("CHECK_OK(" #s ")")
#define ABSL_QCHECK_OK(s) ABSL_CHECK_OK(s)
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#endif
