#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/absl_log.h"
#define CHECK(c) ABSL_LOG_IF(FATAL, !(c)) << "Check failed: " #c " "
#define CHECK_OK(s) CHECK((s).ok())
#define ABSL_CHECK(c) CHECK(c)
#endif
