// Stand-in.
#ifndef VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#define VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#include <cstdint>
#include <initializer_list>
#include <vector>
namespace tensorflow_federated {
namespace aggregation {
class TensorShape {
 public:
  TensorShape() = default;
  TensorShape(std::initializer_list<int64_t> d) : d_(d) {}
  int64_t NumElements() const {
    int64_t n = 1;
    for (int64_t x : d_) n *= x;
    return n;
  }

 private:
  std::vector<int64_t> d_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
