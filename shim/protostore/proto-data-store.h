// Stand-in for protodatastore's ProtoDataStore: one message in one file with a
// checksum.  Writes go through the libc calls a driver can make fail, and are
// not atomic: a write that is cut short leaves a file that reads as corrupt.
#ifndef VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#define VERIF_SHIM_PROTOSTORE_PROTO_DATA_STORE_H_
#include <cstdio>
#include <fcntl.h>
#include <memory>
#include <string>
#include <unistd.h>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "protostore/file-storage.h"
namespace protostore {
template <typename M>
class ProtoDataStore {
 public:
  ProtoDataStore(FileStorage& storage, absl::string_view path) : path_(path) {}

  absl::StatusOr<const M*> Read() {
    if (cached_) return cached_.get();
    FILE* f = fopen(path_.c_str(), "r");
    if (!f) return absl::NotFoundError("no data store file");
    std::string s;
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
    fclose(f);
    if (s.size() < 8) return absl::InternalError("data store file too short");
    std::string body = s.substr(8);
    if (Sum(body) != s.substr(0, 8)) return absl::InternalError("checksum mismatch");
    auto m = std::make_unique<M>();
    if (!m->ParseFromString(body)) return absl::InternalError("cannot parse");
    cached_ = std::move(m);
    return cached_.get();
  }

  absl::Status Write(std::unique_ptr<M> m) {
    std::string body = m->SerializeAsString();
    std::string s = Sum(body) + body;
    cached_.reset();
    FILE* f = fopen(path_.c_str(), "w");
    if (!f) return absl::InternalError("cannot open data store file");
    int fd = fileno(f);
    size_t done = 0;
    while (done < s.size()) {
      ssize_t k = write(fd, s.data() + done, s.size() - done);
      if (k <= 0) {
        fclose(f);
        return absl::InternalError("cannot write data store file");
      }
      done += k;
    }
    fclose(f);
    cached_ = std::move(m);
    return absl::OkStatus();
  }

 private:
  static std::string Sum(const std::string& b) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : b) h = (h ^ c) * 1099511628211ull;
    std::string r(8, 0);
    for (int i = 0; i < 8; ++i) r[i] = static_cast<char>(h >> (8 * i));
    return r;
  }
  std::string path_;
  std::unique_ptr<M> cached_;
};
}  // namespace protostore
#endif
