// Stand-in for protodatastore's FileStorage.
#ifndef VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#define VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#include <sys/stat.h>

#include <cstdint>
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace protostore {
class FileStorage {
 public:
  virtual ~FileStorage() = default;
  absl::StatusOr<int64_t> GetFileSize(const std::string& path) {
    struct stat st;
    if (stat(path.c_str(), &st) != 0) return absl::NotFoundError(absl::StrCat("no file ", path));
    return st.st_size;
  }
};
}  // namespace protostore
#endif
