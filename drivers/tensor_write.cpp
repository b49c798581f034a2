// Tensor writers over arbitrary storage, and the table of element types.
#include <zerialize/zerialize.hpp>
#include <set>
#include <zerialize/tensor/utils.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xadapt.hpp>
#include "mock.hpp"
#include "sinks.hpp"
using namespace zerialize;
using std::size_t;
#define TYPES(F) F(i8, std::int8_t) F(i16, std::int16_t) F(i32, std::int32_t) F(i64, std::int64_t) F(u8, std::uint8_t) F(u16, std::uint16_t) \
  F(u32, std::uint32_t) F(u64, std::uint64_t) F(f32, float) F(f64, double) F(c64, std::complex<float>) F(c128, std::complex<double>) F(f16, xtl::half_float)
#define ENTRY(n, T) \
  extern "C" void drv_name_##n() { sink_u64(std::uint64_t(std::int64_t(tensor_dtype_index<T>))); sink_view(tensor_dtype_name<T>.data(), tensor_dtype_name<T>.size()); } \
  extern "C" void drv_x_##n##_1(const T* p, size_t, size_t a) { EvWriter w; auto x = xt::adapt(p, a, xt::no_ownership(), std::array<size_t, 1>{a}); serialize(x, w); } \
  extern "C" void drv_e_##n##_dd(const T* p, size_t bytes, size_t a, size_t b) { EvWriter w; Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m(a, b); \
    if (a && b) std::memcpy((void*)m.data(), p, bytes); serialize(m, w); }
TYPES(ENTRY)
extern "C" void drv_code(int code) { auto s = type_name_from_code(code); sink_view(s.data(), s.size()); }
#define RANK(n, T) \
  extern "C" void drv_x_##n##_0(const T* p, size_t) { EvWriter w; auto x = xt::adapt(p, 1, xt::no_ownership(), std::array<size_t, 0>{}); serialize(x, w); } \
  extern "C" void drv_x_##n##_2(const T* p, size_t, size_t a, size_t b) { EvWriter w; auto x = xt::adapt(p, a * b, xt::no_ownership(), std::array<size_t, 2>{a, b}); serialize(x, w); } \
  extern "C" void drv_x_##n##_3(const T* p, size_t, size_t a, size_t b, size_t c) { EvWriter w; auto x = xt::adapt(p, a * b * c, xt::no_ownership(), std::array<size_t, 3>{a, b, c}); serialize(x, w); } \
  extern "C" void drv_e_##n##_23(const T* p, size_t) { EvWriter w; Eigen::Matrix<T, 2, 3> m; std::memcpy((void*)m.data(), p, 6 * sizeof(T)); serialize(m, w); } \
  extern "C" void drv_e_##n##_rm(const T* p, size_t bytes, size_t a, size_t b) { EvWriter w; Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(a, b); \
    if (a && b) std::memcpy((void*)m.data(), p, bytes); serialize(m, w); }
RANK(u8, std::uint8_t)
RANK(i32, std::int32_t)
RANK(f64, double)
// parts of a 2x3 tensor, and a column-major one: what is written are the elements of the expression
extern "C" void drv_v_row(const std::int32_t* p, size_t) { EvWriter w; auto x = xt::adapt(p, 6, xt::no_ownership(), std::array<size_t, 2>{2, 3}); auto v = xt::view(x, 1); serialize(v, w); }
extern "C" void drv_v_col(const std::int32_t* p, size_t) { EvWriter w; auto x = xt::adapt(p, 6, xt::no_ownership(), std::array<size_t, 2>{2, 3}); auto v = xt::view(x, xt::all(), 1); serialize(v, w); }
extern "C" void drv_v_cm(const std::int32_t* p, size_t) { EvWriter w; auto x = xt::adapt<xt::layout_type::column_major>(p, 6, xt::no_ownership(), std::array<size_t, 2>{2, 3}); serialize(x, w); }
