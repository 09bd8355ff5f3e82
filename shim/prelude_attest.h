// What the attestation sources expect of newer absl and protobuf releases.
#ifndef VERIF_SHIM_PRELUDE_ATTEST_H_
#define VERIF_SHIM_PRELUDE_ATTEST_H_
#include <string>

#include "absl/strings/cord.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/message.h"

namespace absl {
inline std::string& operator+=(std::string& s, absl::string_view v) { return s.append(v.data(), v.size()); }
}  // namespace absl

#define ParseFromCord(cord) ParseFromString(std::string(cord))
#endif  // VERIF_SHIM_PRELUDE_ATTEST_H_
