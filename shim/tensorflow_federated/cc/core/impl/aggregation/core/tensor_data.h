// Stand-in.
#ifndef VERIF_SHIM_TFF_TENSOR_DATA_H_
#define VERIF_SHIM_TFF_TENSOR_DATA_H_
#include <cstddef>
namespace tensorflow_federated {
namespace aggregation {
class TensorData {
 public:
  virtual ~TensorData() = default;
  virtual const void* data() const = 0;
  virtual size_t byte_size() const = 0;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
