// Stand-in: a tensor knows its type, shape and data.
#ifndef VERIF_SHIM_TFF_TENSOR_H_
#define VERIF_SHIM_TFF_TENSOR_H_
#include <memory>
#include <string>
#include <utility>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
namespace tensorflow_federated {
namespace aggregation {
class Tensor {
 public:
  Tensor() = default;
  static absl::StatusOr<Tensor> Create(DataType t, TensorShape s, std::unique_ptr<TensorData> d) {
    size_t one = t == DT_STRING ? sizeof(absl::string_view)
                                : (t == DT_INT32 || t == DT_FLOAT ? 4 : 8);
    if (d->byte_size() != one * static_cast<size_t>(s.NumElements()))
      return absl::FailedPreconditionError("size mismatch");
    Tensor r;
    r.type = t;
    r.shape = std::move(s);
    r.data = std::move(d);
    return r;
  }
  // The format of the checkpoint stand-in.
  std::string Text() const {
    int64_t n = shape.NumElements();
    const char* names[] = {"?", "float", "double", "int32"};
    std::string out = absl::StrCat(
        type == DT_STRING ? "string" : type == DT_INT64 ? "int64" : names[type], "\n", n, "\n");
    for (int64_t i = 0; i < n; i++) {
      std::string v;
      const void* p = data->data();
      if (type == DT_STRING) v = std::string(static_cast<const absl::string_view*>(p)[i]);
      else if (type == DT_INT32) v = absl::StrCat(static_cast<const int32_t*>(p)[i]);
      else if (type == DT_INT64) v = absl::StrCat(static_cast<const int64_t*>(p)[i]);
      else if (type == DT_FLOAT) v = absl::StrCat(static_cast<const float*>(p)[i]);
      else v = absl::StrCat(static_cast<const double*>(p)[i]);
      absl::StrAppend(&out, v.size(), ":", v, "\n");
    }
    return out;
  }

  DataType type = DT_INVALID;
  TensorShape shape;
  std::unique_ptr<TensorData> data;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
