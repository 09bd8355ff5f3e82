// Stand-in: only full slices.
#ifndef VERIF_SHIM_TF_TENSOR_SLICE_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_H_
namespace tensorflow {
class TensorSlice {
 public:
  explicit TensorSlice(int dims) : dims_(dims) {}
  int dims() const { return dims_; }

 private:
  int dims_;
};
}  // namespace tensorflow
#endif
