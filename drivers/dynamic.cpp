#include <zerialize/zerialize.hpp>
#include <zerialize/dynamic.hpp>
#include "mock.hpp"
using namespace zerialize;
using dyn::Value;
using std::size_t;
static inline void emit(const Value& v) { EvWriter w; serialize(v, w); }
#define SCALAR(name, T) extern "C" void drv_v_##name(T v) { emit(Value(v)); }
SCALAR(bool, bool)
SCALAR(char, char)
SCALAR(schar, signed char)
SCALAR(uchar, unsigned char)
SCALAR(short, short)
SCALAR(ushort, unsigned short)
SCALAR(int, int)
SCALAR(uint, unsigned)
SCALAR(long, long)
SCALAR(ulong, unsigned long)
SCALAR(llong, long long)
SCALAR(ullong, unsigned long long)
SCALAR(float, float)
SCALAR(double, double)
extern "C" void drv_null0() { emit(Value()); }
extern "C" void drv_null1() { emit(Value(nullptr)); }
extern "C" void drv_null2() { emit(Value(dyn::Null{})); }
extern "C" void drv_cstr(const char* p, size_t) { emit(Value(p)); }
extern "C" void drv_sv(const char* p, size_t n) { emit(Value(std::string_view(p, n))); }
extern "C" void drv_string(const char* p, size_t n) { emit(Value(std::string(p, n))); }
extern "C" void drv_span(const std::byte* p, size_t n) { emit(Value(std::span<const std::byte>(p, n))); }
extern "C" void drv_blob(const std::byte* p, size_t n) { emit(Value::blob(std::span<const std::byte>(p, n))); }
extern "C" void drv_bytes(const std::byte* p, size_t n) { std::vector<std::byte> v(p, p + n); emit(Value(v)); }
extern "C" void drv_bytesmv(const std::byte* p, size_t n) { emit(Value(std::vector<std::byte>(p, p + n))); }
extern "C" void drv_binary(const std::byte* p, size_t n) { emit(Value(dyn::Binary{std::vector<std::byte>(p, p + n)})); }
extern "C" void drv_arr0() { emit(dyn::array({})); }
extern "C" void drv_arr(int a, unsigned b, double c, const char* p, size_t n) { emit(dyn::array({a, b, c, std::string_view(p, n), nullptr, true})); }
extern "C" void drv_map0() { emit(dyn::map({})); }
extern "C" void drv_map(int a, unsigned long b, const char* p, size_t n) { emit(dyn::map({{"one", a}, {"", b}, {std::string(p, n), Value()}})); }
extern "C" void drv_dup(int a, int b) { emit(dyn::map({{"k", a}, {"j", 1}, {"k", b}})); }
extern "C" void drv_nest(int a, long b, const char* p, size_t n) {
  emit(dyn::map({{"l", dyn::array({a, dyn::array({b, dyn::array({})})})}, {"m", dyn::map({{std::string(p, n), dyn::map({})}})}})); }
extern "C" void drv_copy(int a, const char* p, size_t n) { Value v = dyn::array({a, std::string_view(p, n)}); Value w(v); v = Value(); Value x; x = std::move(w); emit(x); }
extern "C" void drv_vec(size_t n, std::int64_t a) { Value::Array v; for (size_t i = 0; i < n; ++i) v.push_back(Value(a + static_cast<std::int64_t>(i))); emit(Value::array(std::move(v))); }
extern "C" void drv_vecmap(size_t n, std::int64_t a) { Value::Map v; for (size_t i = 0; i < n; ++i) v.emplace_back(std::string("kk", i & 1), Value(a + static_cast<std::int64_t>(i))); emit(Value::map(std::move(v))); }
extern "C" void drv_root(int a, long b) { ZBuffer r = zerialize::serialize<MockProtocol>(dyn::array({a, b})); ev_result(r.data(), r.size()); }
namespace user {
struct All { bool b; std::int64_t i; std::uint64_t u; double d; const char* p; size_t n; size_t c; };
template <Writer W> void serialize(const All& x, W& w) {
  w.begin_map(x.c); w.key(std::string_view(x.p, x.n)); w.null(); w.key("q"); w.boolean(x.b); w.begin_array(x.c); w.int64(x.i); w.uint64(x.u); w.double_(x.d);
  w.string(std::string_view(x.p, x.n)); w.binary(std::as_bytes(std::span<const char>(x.p, x.n))); w.end_array(); w.end_map();
}
}
extern "C" void drv_view(bool b, std::int64_t i, std::uint64_t u, double d, const char* p, size_t n, size_t c) {
  user::All x{b, i, u, d, p, n, c}; EvWriter w; auto v = dyn::WriterView::make(w); serialize(x, v); }
extern "C" void drv_ser(bool b, std::int64_t i, std::uint64_t u, double d, const char* p, size_t n, size_t c) {
  user::All x{b, i, u, d, p, n, c}; Value v = dyn::serializable(x); x.i = 7; x.n = 0; x.c = 1; x.b = !b; x.u = 3; emit(v); }
extern "C" void drv_sermv(bool b, std::int64_t i, std::uint64_t u, double d, const char* p, size_t n, size_t c) {
  Value v = dyn::array({dyn::serializable(user::All{b, i, u, d, p, n, c}), 1}); emit(v); }
