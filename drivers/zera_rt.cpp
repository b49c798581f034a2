#include <zerialize/protocols/zera.hpp>
using P = zerialize::Zera;
#include "rt.hpp"
extern "C" void drv_threshold(R* r, std::uint32_t t) { r->set_inline_string_threshold(t); }
// A container that has received c elements already: c value references (or entries) p[0..n) behind the
// count field. Only where the writer keeps its state that way.
template <class T> constexpr bool growable = false;
template <class T> requires requires(T& t) {
  typename T::ArrayCtx; typename T::MapCtx;
  std::get<typename T::ArrayCtx>(t.st_.back()).payload.insert(std::get<typename T::ArrayCtx>(t.st_.back()).payload.end(), (const std::uint8_t*)0, (const std::uint8_t*)0);
  std::get<typename T::MapCtx>(t.st_.back()).payload.insert(std::get<typename T::MapCtx>(t.st_.back()).payload.end(), (const std::uint8_t*)0, (const std::uint8_t*)0);
  std::get<typename T::ArrayCtx>(t.st_.back()).count = 0;
  std::get<typename T::MapCtx>(t.st_.back()).count = 0;
} constexpr bool growable<T> = sizeof(typename T::ArrayCtx) == 32 && sizeof(typename T::MapCtx) == 48;
template <class C, class T> void grow(T& r, const std::uint8_t* p, std::size_t n, std::size_t c) {
  if constexpr (growable<T>) {
    auto& x = std::get<C>(r.st_.back());
    x.payload.insert(x.payload.end(), p, p + n);
    x.count = static_cast<std::remove_reference_t<decltype(x.count)>>(c);
  }
}
template <class T> void grow_arr(T& r, const std::uint8_t* p, std::size_t n, std::size_t c) { if constexpr (growable<T>) grow<typename T::ArrayCtx>(r, p, n, c); }
template <class T> void grow_map(T& r, const std::uint8_t* p, std::size_t n, std::size_t c) { if constexpr (growable<T>) grow<typename T::MapCtx>(r, p, n, c); }
extern "C" std::size_t drv_growable() { return growable<R>; }
extern "C" void drv_garr(R* r, const std::uint8_t* p, std::size_t n, std::size_t c) { grow_arr(*r, p, n, c); }
extern "C" void drv_gmap(R* r, const std::uint8_t* p, std::size_t n, std::size_t c) { grow_map(*r, p, n, c); }
