// The installed flatbuffers (2.0.8) calls GenText GenerateText.
#ifndef VERIF_SHIM_FLATBUFFERS_IDL_H_
#define VERIF_SHIM_FLATBUFFERS_IDL_H_
#include_next "flatbuffers/idl.h"
namespace flatbuffers {
inline bool GenText(const Parser& parser, const void* flatbuffer,
                    std::string* text) {
  return GenerateText(parser, flatbuffer, text);
}
}  // namespace flatbuffers
#endif
