// Reader and writer stand-ins whose every answer is supplied by the analyser and whose every call is recorded by it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <span>
#include <string>
#include <string_view>
#include <vector>
extern "C" {
// writer events
void ev_null() noexcept;
void ev_boolean(bool) noexcept;
void ev_int64(std::int64_t) noexcept;
void ev_uint64(std::uint64_t) noexcept;
void ev_double(double) noexcept;
void ev_string(const char*, std::size_t) noexcept;
void ev_binary(const void*, std::size_t) noexcept;
void ev_key(const char*, std::size_t) noexcept;
void ev_begin_array(std::size_t) noexcept;
void ev_end_array() noexcept;
void ev_begin_map(std::size_t) noexcept;
void ev_end_map() noexcept;
void ev_finish() noexcept;
void ev_open(const void*, std::size_t) noexcept;
void ev_result(const void*, std::size_t) noexcept;
// reader answers, functions of their arguments
std::uint64_t mk_kind(std::uint64_t h) noexcept;
bool mk_bool(std::uint64_t h) noexcept;
std::int64_t mk_i64(std::uint64_t h) noexcept;
std::uint64_t mk_u64(std::uint64_t h) noexcept;
double mk_f64(std::uint64_t h) noexcept;
const char* mk_str(std::uint64_t h) noexcept;
std::size_t mk_strlen(std::uint64_t h) noexcept;
const std::byte* mk_blob(std::uint64_t h) noexcept;
std::size_t mk_bloblen(std::uint64_t h) noexcept;
std::size_t mk_count(std::uint64_t h) noexcept;
const char* mk_key(std::uint64_t h, std::size_t i) noexcept;
std::size_t mk_keylen(std::uint64_t h, std::size_t i) noexcept;
std::uint64_t mk_elem(std::uint64_t h, std::size_t i) noexcept;
std::uint64_t mk_child(std::uint64_t h, const char* p, std::size_t n) noexcept;
std::uint8_t* mk_bytes() noexcept;
std::size_t mk_byteslen() noexcept;
}

struct EvWriter {
  void null() { ev_null(); }
  void boolean(bool b) { ev_boolean(b); }
  void int64(std::int64_t v) { ev_int64(v); }
  void uint64(std::uint64_t v) { ev_uint64(v); }
  void double_(double v) { ev_double(v); }
  void string(std::string_view s) { ev_string(s.data(), s.size()); }
  void binary(std::span<const std::byte> b) { ev_binary(b.data(), b.size()); }
  void key(std::string_view s) { ev_key(s.data(), s.size()); }
  void begin_array(std::size_t n) { ev_begin_array(n); }
  void end_array() { ev_end_array(); }
  void begin_map(std::size_t n) { ev_begin_map(n); }
  void end_map() { ev_end_map(); }
};

struct MockKeys {
  std::uint64_t h;
  struct iterator {
    using iterator_category = std::forward_iterator_tag;
    using iterator_concept = std::forward_iterator_tag;
    using value_type = std::string_view;
    using difference_type = std::ptrdiff_t;
    using reference = std::string_view;
    using pointer = const std::string_view*;
    std::uint64_t h = 0;
    std::size_t i = 0;
    std::string_view operator*() const { return std::string_view(mk_key(h, i), mk_keylen(h, i)); }
    iterator& operator++() { ++i; return *this; }
    iterator operator++(int) { auto t = *this; ++i; return t; }
    bool operator==(const iterator& o) const { return i == o.i; }
  };
  iterator begin() const { return iterator{h, 0}; }
  iterator end() const { return iterator{h, mk_count(h)}; }
};

template <class Child, int Only>
struct MockValue {
  std::uint64_t h = 0;
  bool is(int k) const { if constexpr (Only >= 0) return k == Only; else return mk_kind(h) == std::uint64_t(k); }
  bool isNull() const { return is(0); }
  bool isBool() const { return is(1); }
  bool isInt() const { return is(2); }
  bool isUInt() const { return is(3); }
  bool isFloat() const { return is(4); }
  bool isString() const { return is(5); }
  bool isBlob() const { return is(6); }
  bool isMap() const { return is(7); }
  bool isArray() const { return is(8); }
  bool asBool() const { return mk_bool(h); }
  std::int8_t asInt8() const { return static_cast<std::int8_t>(mk_i64(h)); }
  std::int16_t asInt16() const { return static_cast<std::int16_t>(mk_i64(h)); }
  std::int32_t asInt32() const { return static_cast<std::int32_t>(mk_i64(h)); }
  std::int64_t asInt64() const { return mk_i64(h); }
  std::uint8_t asUInt8() const { return static_cast<std::uint8_t>(mk_u64(h)); }
  std::uint16_t asUInt16() const { return static_cast<std::uint16_t>(mk_u64(h)); }
  std::uint32_t asUInt32() const { return static_cast<std::uint32_t>(mk_u64(h)); }
  std::uint64_t asUInt64() const { return mk_u64(h); }
  float asFloat() const { return static_cast<float>(mk_f64(h)); }
  double asDouble() const { return mk_f64(h); }
  std::string_view asStringView() const { return std::string_view(mk_str(h), mk_strlen(h)); }
  std::string asString() const { return std::string(mk_str(h), mk_strlen(h)); }
  std::span<const std::byte> asBlob() const { return std::span<const std::byte>(mk_blob(h), mk_bloblen(h)); }
  MockKeys mapKeys() const { return MockKeys{h}; }
  bool contains(std::string_view) const { return true; }
  std::size_t arraySize() const { return mk_count(h); }
  std::size_t mapSize() const { return mk_count(h); }
  Child operator[](std::size_t i) const { return Child{mk_elem(h, i)}; }
  Child operator[](std::string_view k) const { return Child{mk_child(h, k.data(), k.size())}; }
};
struct Leaf : MockValue<Leaf, 2> {};
struct Node : MockValue<Leaf, -1> {};

struct MockRoot {
  zerialize::ZBuffer finish() {
    ev_finish();
    return zerialize::ZBuffer(std::vector<std::uint8_t>(mk_bytes(), mk_bytes() + mk_byteslen()));
  }
};
struct MockWriter : EvWriter { explicit MockWriter(MockRoot&) {} };
struct MockDoc : MockValue<Leaf, -1> {
  explicit MockDoc(const std::vector<std::uint8_t>& v) { ev_open(v.data(), v.size()); }
  explicit MockDoc(const std::uint8_t* p, std::size_t n) { ev_open(p, n); }
};
struct MockProtocol {
  static constexpr const char* Name = "Mock";
  using Deserializer = MockDoc;
  using RootSerializer = MockRoot;
  using Serializer = MockWriter;
};
