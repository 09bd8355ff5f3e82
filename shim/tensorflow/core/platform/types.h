// Stand-in.
#ifndef VERIF_SHIM_TF_TYPES_H_
#define VERIF_SHIM_TF_TYPES_H_
#include <cstdint>
namespace tensorflow {
using int64 = int64_t;
}  // namespace tensorflow
#endif
