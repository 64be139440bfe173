#ifndef SHIM_ABSL_CHECK_H_
#define SHIM_ABSL_CHECK_H_
#include "absl/log/log.h"
#define SHIM_CHECK(c) if (c) {} else ::absl::shim::FatalSink()
#define CHECK(c) SHIM_CHECK(c)
#define CHECK_EQ(a, b) SHIM_CHECK((a) == (b))
#define CHECK_NE(a, b) SHIM_CHECK((a) != (b))
#define CHECK_LT(a, b) SHIM_CHECK((a) < (b))
#define CHECK_LE(a, b) SHIM_CHECK((a) <= (b))
#define CHECK_GT(a, b) SHIM_CHECK((a) > (b))
#define CHECK_GE(a, b) SHIM_CHECK((a) >= (b))
#define CHECK_OK(s) SHIM_CHECK((s).ok())
#define DCHECK(c) SHIM_CHECK(c)
#define DCHECK_EQ(a, b) SHIM_CHECK((a) == (b))
#define DCHECK_NE(a, b) SHIM_CHECK((a) != (b))
#endif
