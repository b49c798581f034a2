#include <zerialize/zerialize.hpp>
#include "mock.hpp"
using namespace zerialize;
using std::uint64_t;
using std::size_t;
#define SCALAR(name, T) \
  extern "C" void drv_v_##name(T v) { EvWriter w; zerialize::serialize(v, w); } \
  extern "C" void drv_r_##name(T v) { ZBuffer b = zerialize::serialize<MockProtocol>(v); ev_result(b.data(), b.size()); }
SCALAR(bool, bool)
SCALAR(char, char)
SCALAR(schar, signed char)
SCALAR(uchar, unsigned char)
SCALAR(short, short)
SCALAR(ushort, unsigned short)
SCALAR(int, int)
SCALAR(uint, unsigned)
SCALAR(long, long)
SCALAR(ulong, unsigned long)
SCALAR(llong, long long)
SCALAR(ullong, unsigned long long)
SCALAR(float, float)
SCALAR(double, double)
extern "C" void drv_null() { EvWriter w; zerialize::serialize(nullptr, w); }
extern "C" void drv_none() { ZBuffer b = zerialize::serialize<MockProtocol>(); ev_result(b.data(), b.size()); }
extern "C" void drv_cstr(const char* p, size_t) { EvWriter w; zerialize::serialize(p, w); }
extern "C" void drv_sv(const char* p, size_t n) { EvWriter w; zerialize::serialize(std::string_view(p, n), w); }
extern "C" void drv_string(const char* p, size_t n) { std::string s(p, n); EvWriter w; zerialize::serialize(s, w); }
extern "C" void drv_span(const std::byte* p, size_t n) { EvWriter w; zerialize::serialize(std::span<const std::byte>(p, n), w); }
extern "C" void drv_bytes(const std::byte* p, size_t n) { std::vector<std::byte> v(p, p + n); EvWriter w; zerialize::serialize(v, w); }

// containers over an arbitrary element sequence (storage of n bytes)
struct Raw { const void* b; size_t n; size_t pad; };
template <class C, class T> static const C& over(Raw& r, const T* p, size_t bytes) {
  r.b = p; r.n = bytes / sizeof(T); r.pad = 0;
  return *reinterpret_cast<const C*>(&r);
}
#define SEQ(name, C, T) extern "C" void drv_c_##name(const T* p, size_t bytes) { Raw r; EvWriter w; const auto& c = over<C>(r, p, bytes); zerialize::serialize(c, w); }
SEQ(vec_int, std::vector<int>, int)
SEQ(vec_u8, std::vector<unsigned char>, unsigned char)
SEQ(vec_f32, std::vector<float>, float)
SEQ(list_i64, std::list<long>, long)
SEQ(list_u32, std::list<unsigned>, unsigned)
using PI = std::pair<const std::string, int>;
using PU = std::pair<const std::string, unsigned long>;
using MI = std::map<std::string, int>;
using UI = std::unordered_map<std::string, unsigned long>;
SEQ(map, MI, PI)
SEQ(umap, UI, PU)
extern "C" void drv_c_il(const int* p, size_t bytes) { struct { const int* b; size_t n; } r{p, bytes / sizeof(int)}; EvWriter w;
  zerialize::serialize(*reinterpret_cast<const std::initializer_list<int>*>(&r), w); }
extern "C" void drv_c_arr(const int* p, size_t) { std::array<int, 3> a{p[0], p[1], p[2]}; EvWriter w; zerialize::serialize(a, w); }
extern "C" void drv_c_arr0() { std::array<int, 0> a{}; EvWriter w; zerialize::serialize(a, w); }
// nesting
using VV = std::vector<std::vector<int>>;
extern "C" void drv_n_vv(int a, int b, int c) { VV v; v.push_back(std::vector<int>{a, b}); v.push_back(std::vector<int>{}); v.push_back(std::vector<int>{c});
  EvWriter w; zerialize::serialize(v, w); }
extern "C" void drv_n_vs(const char* p, size_t n) { std::vector<std::string> v; v.push_back(std::string(p, n)); v.push_back(std::string("x", 1)); EvWriter w; zerialize::serialize(v, w); }
// builders
extern "C" void drv_b_zvec(int a, unsigned b, double c, const char* p, size_t n, bool d) {
  std::string_view s(p, n); EvWriter w; zvec(a, b, c, s, d, nullptr)(w); }
extern "C" void drv_b_zvec0() { EvWriter w; zvec()(w); }
extern "C" void drv_b_zmap(int a, unsigned char b, float c) { EvWriter w; zmap<"first", "", "a\0b">(a, b, c)(w); }
extern "C" void drv_b_zmap0() { EvWriter w; zmap<>()(w); }
extern "C" void drv_b_nested(int a, long b, unsigned long c, const char* p, size_t n) {
  std::string_view s(p, n); EvWriter w;
  zmap<"nums", "meta", "e">(zvec(a, zvec(b, c)), zmap<"k">(s), zvec())(w); }
extern "C" void drv_r_zvec(int a, long b) { ZBuffer r = zerialize::serialize<MockProtocol>(zvec(a, b)); ev_result(r.data(), r.size()); }
extern "C" void drv_r_zmap(int a, long b) { auto m = zmap<"x", "y">(a, b); ZBuffer r = zerialize::serialize<MockProtocol>(m); ev_result(r.data(), r.size()); }

static_assert(sizeof(PI) == 40 && sizeof(PU) == 40);
// a builder kept in a variable still owns the temporaries it was given
extern "C" void drv_b_temp(const char* p, size_t n) {
  auto b = zvec(std::string(p, n), zmap<"k">(std::string(p, n))); EvWriter w; b(w); }
extern "C" void drv_n_map(const char* p, size_t n, int a, int b) {
  PI e[2] = {{std::string(p, n), a}, {std::string("x", 1), b}}; Raw r; EvWriter w; zerialize::serialize(over<MI>(r, e, sizeof e), w); }
extern "C" void drv_n_umap(const char* p, size_t n, unsigned long a, unsigned long b) {
  PU e[2] = {{std::string(p, n), a}, {std::string("x", 1), b}}; Raw r; EvWriter w; zerialize::serialize(over<UI>(r, e, sizeof e), w); }
extern "C" void drv_svnull() { EvWriter w; zerialize::serialize(std::string_view(), w); }
extern "C" void drv_spannull() { EvWriter w; zerialize::serialize(std::span<const std::byte>(), w); }
