#ifndef VERIF_COMPAT_CHECK_H_
#define VERIF_COMPAT_CHECK_H_
#include "absl/log/absl_check.h"
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define CHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define CHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define CHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define CHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define CHECK_OK(s) ABSL_CHECK_OK(s)
#define DCHECK(c) ABSL_CHECK(c)
#endif
