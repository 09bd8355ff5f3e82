// Stand-in: writes every slice as "name type count" followed by its values, each
// with its length.  Names may be written once.
#ifndef VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#include <cstdint>
#include <fstream>
#include <set>
#include <string>
#include <type_traits>

#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/tensor_slice.h"

namespace tensorflow {
namespace checkpoint {
inline void CreateTableTensorSliceBuilder() {}

template <typename T> struct SliceType { static constexpr const char* name = "?"; };
template <> struct SliceType<int32_t> { static constexpr const char* name = "int32"; };
template <> struct SliceType<int64_t> { static constexpr const char* name = "int64"; };
template <> struct SliceType<bool> { static constexpr const char* name = "bool"; };
template <> struct SliceType<float> { static constexpr const char* name = "float"; };
template <> struct SliceType<double> { static constexpr const char* name = "double"; };
template <> struct SliceType<std::string> { static constexpr const char* name = "string"; };

class TensorSliceWriter {
 public:
  TensorSliceWriter(const std::string& file, void (*)()) : file_(file) {}
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape,
                   const TensorSlice& slice, const T* data) {
    if (!names_.insert(name).second) return absl::InternalError("written twice");
    int64_t n = shape.num_elements();
    absl::StrAppend(&out_, name, "\n", SliceType<T>::name, "\n", n, "\n");
    for (int64_t i = 0; i < n; i++) {
      std::string v;
      if constexpr (std::is_same_v<T, std::string>) v = data[i];
      else v = absl::StrCat(data[i]);
      absl::StrAppend(&out_, v.size(), ":", v, "\n");
    }
    return absl::OkStatus();
  }
  absl::Status Finish() {
    std::ofstream f(file_, std::ios::binary | std::ios::trunc);
    f << out_;
    f.flush();
    return f.good() ? absl::OkStatus() : absl::InternalError("cannot write checkpoint");
  }

 private:
  std::string file_, out_;
  std::set<std::string> names_;
};
}  // namespace checkpoint
}  // namespace tensorflow
#endif
