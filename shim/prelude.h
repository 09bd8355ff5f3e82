// Standard headers that newer toolchains pull in indirectly.
#ifdef __cplusplus
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#endif
