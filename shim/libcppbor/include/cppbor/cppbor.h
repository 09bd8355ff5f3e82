// Stand-in for libcppbor: the part of its interface that the repository uses.
#ifndef VERIF_SHIM_CPPBOR_H_
#define VERIF_SHIM_CPPBOR_H_

#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cppbor {

enum MajorType : uint8_t {
  UINT = 0 << 5,
  NINT = 1 << 5,
  BSTR = 2 << 5,
  TSTR = 3 << 5,
  ARRAY = 4 << 5,
  MAP = 5 << 5,
  SEMANTIC = 6 << 5,
  SIMPLE = 7 << 5,
};

class Int;
class Uint;
class Nint;
class Bstr;
class Tstr;
class Array;
class Map;

inline void encodeHeader(MajorType t, uint64_t n, std::vector<uint8_t>& out) {
  int bytes = n < 24 ? 0 : n <= 0xff ? 1 : n <= 0xffff ? 2 : n <= 0xffffffffull ? 4 : 8;
  int info = bytes == 0 ? static_cast<int>(n) : bytes == 1 ? 24 : bytes == 2 ? 25 : bytes == 4 ? 26 : 27;
  out.push_back(static_cast<uint8_t>(t | info));
  for (int i = bytes - 1; i >= 0; --i) out.push_back(static_cast<uint8_t>(n >> (8 * i)));
}

class Item {
 public:
  virtual ~Item() = default;
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; }
  virtual Uint* asUint() { return nullptr; }
  virtual Nint* asNint() { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; }
  virtual Tstr* asTstr() { return nullptr; }
  virtual Array* asArray() { return nullptr; }
  virtual Map* asMap() { return nullptr; }
  virtual void encode(std::vector<uint8_t>& out) const = 0;
  std::vector<uint8_t> encode() const {
    std::vector<uint8_t> r;
    encode(r);
    return r;
  }
  std::string toString() const {
    auto v = encode();
    return std::string(v.begin(), v.end());
  }
};

class Int : public Item {
 public:
  virtual int64_t value() const = 0;
  Int* asInt() override { return this; }
};
class Uint : public Int {
 public:
  explicit Uint(uint64_t v) : v_(v) {}
  MajorType type() const override { return UINT; }
  Uint* asUint() override { return this; }
  int64_t value() const override { return static_cast<int64_t>(v_); }
  uint64_t unsignedValue() const { return v_; }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override { encodeHeader(UINT, v_, out); }

 private:
  uint64_t v_;
};
class Nint : public Int {
 public:
  explicit Nint(int64_t v) : v_(v) {}
  MajorType type() const override { return NINT; }
  Nint* asNint() override { return this; }
  int64_t value() const override { return v_; }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(NINT, static_cast<uint64_t>(-(v_ + 1)), out);
  }

 private:
  int64_t v_;
};
class Bstr : public Item {
 public:
  Bstr() = default;
  explicit Bstr(std::vector<uint8_t> v) : v_(std::move(v)) {}
  explicit Bstr(const std::string& v) : v_(v.begin(), v.end()) {}
  Bstr(const uint8_t* b, const uint8_t* e) : v_(b, e) {}
  Bstr(const char* b, const char* e) : v_(b, e) {}
  MajorType type() const override { return BSTR; }
  Bstr* asBstr() override { return this; }
  const std::vector<uint8_t>& value() const { return v_; }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(BSTR, v_.size(), out);
    out.insert(out.end(), v_.begin(), v_.end());
  }

 private:
  std::vector<uint8_t> v_;
};
class Tstr : public Item {
 public:
  explicit Tstr(std::string v) : v_(std::move(v)) {}
  MajorType type() const override { return TSTR; }
  Tstr* asTstr() override { return this; }
  const std::string& value() const { return v_; }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(TSTR, v_.size(), out);
    out.insert(out.end(), v_.begin(), v_.end());
  }

 private:
  std::string v_;
};
class Simple : public Item {
 public:
  Simple(int info, uint64_t v) : info_(info), v_(v) {}
  MajorType type() const override { return SIMPLE; }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override { encodeHeader(SIMPLE, v_, out); }

 private:
  int info_;
  uint64_t v_;
};
// Shows the tagged item's type and values, as the library does.
class SemanticTag : public Item {
 public:
  SemanticTag(uint64_t t, std::unique_ptr<Item> i) : t_(t), i_(std::move(i)) {}
  MajorType type() const override { return i_->type(); }
  Int* asInt() override { return i_->asInt(); }
  Uint* asUint() override { return i_->asUint(); }
  Nint* asNint() override { return i_->asNint(); }
  Bstr* asBstr() override { return i_->asBstr(); }
  Tstr* asTstr() override { return i_->asTstr(); }
  Array* asArray() override { return i_->asArray(); }
  Map* asMap() override { return i_->asMap(); }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(SEMANTIC, t_, out);
    i_->encode(out);
  }

 private:
  uint64_t t_;
  std::unique_ptr<Item> i_;
};

template <typename T>
std::unique_ptr<Item> makeItem(T v);

class Array : public Item {
 public:
  Array() = default;
  template <typename... A,
            typename = std::enable_if_t<!(sizeof...(A) == 1 && (std::is_same_v<std::decay_t<A>, Array> && ...))>>
  explicit Array(A&&... a) {
    (add(std::forward<A>(a)), ...);
  }
  Array(Array&&) = default;
  template <typename T>
  Array& add(T&& v) & {
    items_.push_back(makeItem<std::decay_t<T>>(std::forward<T>(v)));
    return *this;
  }
  MajorType type() const override { return ARRAY; }
  Array* asArray() override { return this; }
  size_t size() const { return items_.size(); }
  std::unique_ptr<Item>& get(size_t i) { return items_[i]; }
  const std::unique_ptr<Item>& get(size_t i) const { return items_[i]; }
  auto begin() { return items_.begin(); }
  auto end() { return items_.end(); }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(ARRAY, items_.size(), out);
    for (auto& i : items_) i->encode(out);
  }

 private:
  std::vector<std::unique_ptr<Item>> items_;
};

class Map : public Item {
 public:
  Map() = default;
  Map(Map&&) = default;
  template <typename K, typename V>
  Map& add(K&& k, V&& v) & {
    items_.emplace_back(makeItem<std::decay_t<K>>(std::forward<K>(k)), makeItem<std::decay_t<V>>(std::forward<V>(v)));
    return *this;
  }
  MajorType type() const override { return MAP; }
  Map* asMap() override { return this; }
  size_t size() const { return items_.size(); }
  auto begin() { return items_.begin(); }
  auto end() { return items_.end(); }
  using Item::encode;
  void encode(std::vector<uint8_t>& out) const override {
    encodeHeader(MAP, items_.size(), out);
    for (auto& [k, v] : items_) {
      k->encode(out);
      v->encode(out);
    }
  }

 private:
  std::vector<std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>> items_;
};

template <typename T>
std::unique_ptr<Item> makeItem(T v) {
  if constexpr (std::is_convertible_v<T, std::unique_ptr<Item>> && !std::is_integral_v<T>) {
    return v;
  } else if constexpr (std::is_base_of_v<Item, T>) {
    return std::make_unique<T>(std::move(v));
  } else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) {
    if constexpr (std::is_enum_v<T> || std::is_signed_v<T>) {
      int64_t n = static_cast<int64_t>(v);
      if (n < 0) return std::make_unique<Nint>(n);
      return std::make_unique<Uint>(static_cast<uint64_t>(n));
    } else {
      return std::make_unique<Uint>(v);
    }
  } else if constexpr (std::is_same_v<T, std::vector<uint8_t>>) {
    return std::make_unique<Bstr>(std::move(v));
  } else {
    return std::make_unique<Tstr>(std::string(v));
  }
}

}  // namespace cppbor

#endif
