// Stand-in for libcppbor's parser.
#ifndef VERIF_SHIM_CPPBOR_PARSE_H_
#define VERIF_SHIM_CPPBOR_PARSE_H_

#include "libcppbor/include/cppbor/cppbor.h"

namespace cppbor {

using ParseResult = std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;

namespace internal {

inline ParseResult Fail(const uint8_t* at, const std::string& why) { return {nullptr, at, why}; }

inline ParseResult Parse(const uint8_t* p, const uint8_t* end, int depth) {
  const uint8_t* start = p;
  if (depth > 500) return Fail(start, "Max parse depth reached.");
  if (p == end) return Fail(start, "Need at least 1 byte for header.");
  auto type = static_cast<MajorType>(*p & 0xe0);
  int info = *p & 0x1f;
  ++p;
  uint64_t n = info;
  if (info >= 28) return Fail(start, "Reserved additional information value or unsupported indefinite length item.");
  if (info >= 24) {
    int len = 1 << (info - 24);
    if (end - p < len) return Fail(start, "Need more bytes for header.");
    n = 0;
    for (int i = 0; i < len; ++i) n = n << 8 | *p++;
  }
  switch (type) {
    case UINT:
      return {std::make_unique<Uint>(n), p, ""};
    case NINT:
      if (n > INT64_MAX) return Fail(start, "NINT values that don't fit in int64_t are not supported.");
      return {std::make_unique<Nint>(-1 - static_cast<int64_t>(n)), p, ""};
    case BSTR:
      if (n > static_cast<uint64_t>(end - p)) return Fail(start, "Need more bytes for byte string.");
      return {std::make_unique<Bstr>(p, p + n), p + n, ""};
    case TSTR:
      if (n > static_cast<uint64_t>(end - p)) return Fail(start, "Need more bytes for text string.");
      return {std::make_unique<Tstr>(std::string(p, p + n)), p + n, ""};
    case ARRAY: {
      auto r = std::make_unique<Array>();
      for (uint64_t i = 0; i < n; ++i) {
        auto [item, at, error] = Parse(p, end, depth + 1);
        if (!error.empty()) return Fail(start, error);
        r->add(std::move(item));
        p = at;
      }
      return {std::move(r), p, ""};
    }
    case MAP: {
      auto r = std::make_unique<Map>();
      for (uint64_t i = 0; i < n; ++i) {
        auto [k, at, error] = Parse(p, end, depth + 1);
        if (!error.empty()) return Fail(start, error);
        auto [v, at2, error2] = Parse(at, end, depth + 1);
        if (!error2.empty()) return Fail(start, error2);
        r->add(std::move(k), std::move(v));
        p = at2;
      }
      return {std::move(r), p, ""};
    }
    case SEMANTIC: {
      auto [item, at, error] = Parse(p, end, depth + 1);
      if (!error.empty()) return Fail(start, error);
      return {std::make_unique<SemanticTag>(n, std::move(item)), at, ""};
    }
    default:
      if (info != 20 && info != 21 && info != 22) return Fail(start, "Unsupported floating-point or simple value.");
      return {std::make_unique<Simple>(info, n), p, ""};
  }
}

}  // namespace internal

inline ParseResult parse(const uint8_t* begin, size_t size) { return internal::Parse(begin, begin + size, 0); }
inline ParseResult parse(const uint8_t* begin, const uint8_t* end) { return internal::Parse(begin, end, 0); }

}  // namespace cppbor

#endif
