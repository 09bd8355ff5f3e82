// Stand-in.
#ifndef VERIF_SHIM_TF_TSTRING_H_
#define VERIF_SHIM_TF_TSTRING_H_
#include <string>
namespace tensorflow {
using tstring = std::string;
}  // namespace tensorflow
#endif
