// Stand-in: a typed list of values, enough for the code that passes tensors on.
#ifndef VERIF_SHIM_TF_TENSOR_H_
#define VERIF_SHIM_TF_TENSOR_H_
#include <cstdint>
#include <string>
#include <type_traits>
#include <vector>

#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/platform/tstring.h"
#include "tensorflow/core/platform/types.h"

namespace tensorflow {
class Tensor {
 public:
  template <typename T>
  struct View {
    std::vector<T> v;
    int64_t size() const { return static_cast<int64_t>(v.size()); }
    const T& operator()(int64_t i) const { return v.at(i); }
  };
  template <typename T>
  struct Scalar {
    T* p;
    T& operator()() const { return *p; }
  };

  Tensor() = default;
  Tensor(DataType t, const TensorShape& s) : type(t) {
    if (t == DT_STRING) strings.resize(s.num_elements());
    else ints.resize(s.num_elements());
  }
  explicit Tensor(std::string s) : type(DT_STRING), strings{std::move(s)} {}

  DataType dtype() const { return type; }
  int64_t NumElements() const {
    return static_cast<int64_t>(type == DT_STRING ? strings.size() : ints.size());
  }
  template <typename T>
  View<T> flat() const {
    View<T> r;
    for (int64_t x : ints) r.v.push_back(static_cast<T>(x));
    return r;
  }
  template <typename T>
  Scalar<T> scalar() {
    return Scalar<T>{&strings.at(0)};
  }
  template <typename T>
  Scalar<const std::remove_const_t<T>> scalar() const {
    return Scalar<const std::remove_const_t<T>>{&strings.at(0)};
  }
  bool FromProto(const TensorProto& p) {
    if (p.dtype() == DT_INVALID) return false;
    type = p.dtype();
    strings.assign(p.string_val().begin(), p.string_val().end());
    ints.assign(p.int64_val().begin(), p.int64_val().end());
    return true;
  }
  void AsProtoField(TensorProto* p) const {
    p->set_dtype(type);
    for (const auto& s : strings) p->add_string_val(s);
    for (int64_t x : ints) p->add_int64_val(x);
  }

  DataType type = DT_INVALID;
  std::vector<std::string> strings;
  std::vector<int64_t> ints;
  std::string data;
};
}  // namespace tensorflow
#endif
