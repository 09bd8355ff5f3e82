// Small helpers shared by the drivers.
#ifndef VERIF_HARNESS_HARNESS_H_
#define VERIF_HARNESS_HARNESS_H_

#include <string>

#include "absl/status/status.h"
#include "trace.h"

namespace verif {

inline std::string CodeName(absl::StatusCode c) { return absl::StatusCodeToString(c); }
inline std::string CodeName(const absl::Status& s) { return CodeName(s.code()); }

}  // namespace verif

#endif  // VERIF_HARNESS_HARNESS_H_
