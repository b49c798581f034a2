// Tensor and matrix readers over a reader whose every answer is supplied by the analyser.
#include <zerialize/zerialize.hpp>
#include <set>
#include <zerialize/tensor/utils.hpp>
#ifdef DRV_EIGEN
#include <zerialize/tensor/eigen.hpp>
#endif
#ifdef DRV_XTENSOR
#include <zerialize/tensor/xtensor.hpp>
#endif
#include "mock.hpp"
#include "sinks.hpp"
using namespace zerialize;
// kinds as in mock.hpp; integers are range-checked as every reader's are
template <bool Owning>
struct TVal {
  std::uint64_t h = 0;
  bool is(int k) const { return mk_kind(h) == std::uint64_t(k); }
  bool isNull() const { return is(0); }
  bool isBool() const { return is(1); }
  bool isInt() const { return is(2); }
  bool isUInt() const { return is(3); }
  bool isFloat() const { return is(4); }
  bool isString() const { return is(5); }
  bool isBlob() const { return is(6); }
  bool isMap() const { return is(7); }
  bool isArray() const { return is(8); }
  void need(bool b) const { if (!b) throw DeserializationError("mock"); }
  template <class T> T sgn() const { std::int64_t v = mk_i64(h); need(isInt() && v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max()); return T(v); }
  template <class T> T uns() const { std::uint64_t v = mk_u64(h); need(isUInt() && v <= std::numeric_limits<T>::max()); return T(v); }
  bool asBool() const { need(isBool()); return mk_bool(h); }
  std::int8_t asInt8() const { return sgn<std::int8_t>(); }
  std::int16_t asInt16() const { return sgn<std::int16_t>(); }
  std::int32_t asInt32() const { return sgn<std::int32_t>(); }
  std::int64_t asInt64() const { return sgn<std::int64_t>(); }
  std::uint8_t asUInt8() const { return uns<std::uint8_t>(); }
  std::uint16_t asUInt16() const { return uns<std::uint16_t>(); }
  std::uint32_t asUInt32() const { return uns<std::uint32_t>(); }
  std::uint64_t asUInt64() const { return uns<std::uint64_t>(); }
  float asFloat() const { need(isFloat()); return static_cast<float>(mk_f64(h)); }
  double asDouble() const { need(isFloat()); return mk_f64(h); }
  std::string_view asStringView() const { need(isString()); return std::string_view(mk_str(h), mk_strlen(h)); }
  std::string asString() const { return std::string(asStringView()); }
  auto asBlob() const {
    need(isBlob());
    if constexpr (Owning) { const std::byte* p = mk_blob(h); return std::vector<std::byte>(p, p + mk_bloblen(h)); }
    else return std::span<const std::byte>(mk_blob(h), mk_bloblen(h));
  }
  MockKeys mapKeys() const { need(isMap()); return MockKeys{h}; }
  bool contains(std::string_view) const { return true; }
  std::size_t arraySize() const { need(isArray()); return mk_count(h); }
  TVal operator[](std::size_t i) const { need(isArray() && i < mk_count(h)); return TVal{mk_elem(h, i)}; }
  TVal operator[](std::string_view k) const { need(isMap()); return TVal{mk_child(h, k.data(), k.size())}; }
};
extern "C" void sink_mark(int) noexcept;
#ifdef DRV_XTENSOR
template <class T, int D, bool O> void xview(std::uint64_t h) {
  auto v = xtensor::asXTensorView<T, D>(TVal<O>{h});
  sink_mark(1);
  sink_u64(v.rank());
  for (std::size_t i = 0; i < v.rank(); ++i) sink_u64(v.shape()[i]);
  sink_bool(v.viewInfo().zero_copy);
  auto t = v.tensor();
  sink_u64(t.size());
  sink_view(t.data(), t.size() * sizeof(T));
}
template <class T, int D, bool O> void xcopy(std::uint64_t h) {
  auto a = xtensor::asXTensor<T, D>(TVal<O>{h});
  sink_mark(2);
  sink_u64(a.shape().size());
  for (std::size_t i = 0; i < a.shape().size(); ++i) sink_u64(a.shape()[i]);
  sink_u64(a.size());
  sink_view(a.data(), a.size() * sizeof(T));
}
#define X(n, T, D) \
extern "C" void drv_xv_##n(std::uint64_t h) { xview<T, D, false>(h); } \
extern "C" void drv_xo_##n(std::uint64_t h) { xview<T, D, true>(h); } \
extern "C" void drv_xc_##n(std::uint64_t h) { xcopy<T, D, false>(h); }
X(f64_any, double, -1)
X(u8_any, std::uint8_t, -1)
X(i16_r2, std::int16_t, 2)
X(c128_r1, std::complex<double>, 1)
X(i64_r0, std::int64_t, 0)
X(u32_r3, std::uint32_t, 3)
#define EACH(n, T) extern "C" void drv_xv_##n##_each(std::uint64_t h) { xview<T, -1, false>(h); }
#endif
#ifdef DRV_EIGEN
template <class T, int R, int C, bool O, int Opt = Eigen::ColMajor> void eview(std::uint64_t h) {
  auto v = eigen::asEigenMatrixView<T, R, C, false, Opt>(TVal<O>{h});
  sink_mark(1);
  sink_u64(2); sink_u64(v.rows()); sink_u64(v.cols());
  sink_bool(v.viewInfo().zero_copy);
  auto m = v.map();
  sink_u64(std::size_t(m.rows())); sink_u64(std::size_t(m.cols()));
  sink_u64(std::size_t(m.size()));
  sink_view(m.data(), std::size_t(m.size()) * sizeof(T));
}
template <class T, int R, int C, bool O, int Opt = Eigen::ColMajor> void ecopy(std::uint64_t h) {
  auto m = eigen::asEigenMatrix<T, R, C, false, Opt>(TVal<O>{h});
  sink_mark(2);
  sink_u64(2); sink_u64(std::size_t(m.rows())); sink_u64(std::size_t(m.cols()));
  sink_u64(std::size_t(m.size()));
  sink_view(m.data(), std::size_t(m.size()) * sizeof(T));
}
#define E(n, T, R, C) \
extern "C" void drv_ev_##n(std::uint64_t h) { eview<T, R, C, false>(h); } \
extern "C" void drv_eo_##n(std::uint64_t h) { eview<T, R, C, true>(h); } \
extern "C" void drv_ec_##n(std::uint64_t h) { ecopy<T, R, C, false>(h); }
constexpr int Dy = Eigen::Dynamic;
E(f64_dd, double, Dy, Dy)
E(f32_3d, float, 3, Dy)
E(i32_d2, std::int32_t, Dy, 2)
E(i16_23, std::int16_t, 2, 3)
E(u8_dd, std::uint8_t, Dy, Dy)
E(c64_dd, std::complex<float>, Dy, Dy)
extern "C" void drv_ev_f64_rm(std::uint64_t h) { eview<double, Dy, Dy, false, Eigen::RowMajor>(h); }
extern "C" void drv_eo_f64_rm(std::uint64_t h) { eview<double, Dy, Dy, true, Eigen::RowMajor>(h); }
extern "C" void drv_ec_f64_rm(std::uint64_t h) { ecopy<double, Dy, Dy, false, Eigen::RowMajor>(h); }
#define EACH(n, T) extern "C" void drv_ev_##n##_each(std::uint64_t h) { eview<T, Dy, Dy, false>(h); }
#endif
EACH(i8, std::int8_t) EACH(i16, std::int16_t) EACH(i32, std::int32_t) EACH(i64, std::int64_t)
EACH(u8, std::uint8_t) EACH(u16, std::uint16_t) EACH(u32, std::uint32_t) EACH(u64, std::uint64_t)
EACH(f32, float) EACH(f64, double) EACH(c64, std::complex<float>) EACH(c128, std::complex<double>) EACH(f16, xtl::half_float)
