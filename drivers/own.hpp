// Copies, moves, assignments and destruction of readers that own their bytes, and of writers.
#include "rt.hpp"
#include <type_traits>
#include <vector>
template <class X> void cp(X* d, X* s) {
    if constexpr (std::is_copy_constructible_v<X>) { ::new (static_cast<void*>(d)) X(static_cast<const X&>(*s)); sink_bool(true); }
    else sink_bool(false);
}
template <class X> void mv(X* d, X* s) {
    if constexpr (std::is_move_constructible_v<X>) { ::new (static_cast<void*>(d)) X(std::move(*s)); sink_bool(true); }
    else sink_bool(false);
}
template <class X> void cas(X* d, X* s) {
    if constexpr (std::is_copy_assignable_v<X>) { *d = static_cast<const X&>(*s); sink_bool(true); }
    else sink_bool(false);
}
template <class X> void mas(X* d, X* s) {
    if constexpr (std::is_move_assignable_v<X>) { *d = std::move(*s); sink_bool(true); }
    else sink_bool(false);
}
extern "C" {
void drv_own(D* d, const std::uint8_t* p, std::size_t n) { std::vector<std::uint8_t> v(p, p + n); ::new (static_cast<void*>(d)) D(v); }
void drv_take(D* d, const std::uint8_t* p, std::size_t n) { std::vector<std::uint8_t> v(p, p + n); ::new (static_cast<void*>(d)) D(std::move(v)); }
void drv_dropd(D* d) { d->~D(); }
void drv_copy(D* d, D* s) { cp(d, s); }
void drv_move(D* d, D* s) { mv(d, s); }
void drv_cassign(D* d, D* s) { cas(d, s); }
void drv_massign(D* d, D* s) { mas(d, s); }
void drv_wcopy(R* d, R* s) { cp(d, s); }
void drv_wmove(R* d, R* s) { mv(d, s); }
void drv_wcassign(R* d, R* s) { cas(d, s); }
void drv_wmassign(R* d, R* s) { mas(d, s); }
}
