// One entry point per writer call and per reader call of protocol P; the analyser applies
// them one after another to abstract objects it keeps in abstract memory.
#include "sinks.hpp"
#include <new>
#include <span>
#include <string_view>
#include <utility>
using namespace zerialize;
using R = P::RootSerializer;
using S = P::Serializer;
using D = P::Deserializer;
using V = decltype(std::declval<const D&>()[std::size_t(0)]);
extern "C" {
std::size_t drv_sizeof() { return sizeof(R); }
std::size_t drv_sizeofd() { return sizeof(D); }
std::size_t drv_sizeofv() { return sizeof(V); }
void drv_init(R* r) { ::new (static_cast<void*>(r)) R(); }
void drv_null(R* r) { S s(*r); s.null(); }
void drv_bool(R* r, bool v) { S s(*r); s.boolean(v); }
void drv_i64(R* r, std::int64_t v) { S s(*r); s.int64(v); }
void drv_u64(R* r, std::uint64_t v) { S s(*r); s.uint64(v); }
void drv_f64(R* r, double v) { S s(*r); s.double_(v); }
void drv_str(R* r, const char* p, std::size_t n) { S s(*r); s.string(std::string_view(p, n)); }
void drv_blob(R* r, const std::byte* p, std::size_t n) { S s(*r); s.binary(std::span<const std::byte>(p, n)); }
void drv_barr(R* r, std::size_t n) { S s(*r); s.begin_array(n); }
void drv_earr(R* r) { S s(*r); s.end_array(); }
void drv_bmap(R* r, std::size_t n) { S s(*r); s.begin_map(n); }
void drv_emap(R* r) { S s(*r); s.end_map(); }
void drv_key(R* r, const char* p, std::size_t n) { S s(*r); s.key(std::string_view(p, n)); }
std::size_t drv_sizeofb() { return sizeof(ZBuffer); }
void drv_finish(R* r, ZBuffer* b) { ::new (static_cast<void*>(b)) ZBuffer(r->finish()); sink_view(b->data(), b->size()); }
void drv_drop(R* r) { r->~R(); }
void drv_open(D* d, const std::uint8_t* p, std::size_t n) { ::new (static_cast<void*>(d)) D(std::span<const std::uint8_t>(p, n)); }
}
#define READ(X, T) \
extern "C" { \
bool X##_is0(const T* v) { return v->isNull(); } \
bool X##_is1(const T* v) { return v->isBool(); } \
bool X##_is2(const T* v) { return v->isInt(); } \
bool X##_is3(const T* v) { return v->isUInt(); } \
bool X##_is4(const T* v) { return v->isFloat(); } \
bool X##_is5(const T* v) { return v->isString(); } \
bool X##_is6(const T* v) { return v->isBlob(); } \
bool X##_is7(const T* v) { return v->isArray(); } \
bool X##_is8(const T* v) { return v->isMap(); } \
void X##_bool(const T* v) { sink_bool(v->asBool()); } \
void X##_i64(const T* v) { sink_i64(v->asInt64()); } \
void X##_u64(const T* v) { sink_u64(v->asUInt64()); } \
void X##_f64(const T* v) { sink_f64(v->asDouble()); } \
void X##_str(const T* v) { auto s = v->asStringView(); sink_view(s.data(), s.size()); } \
void X##_blob(const T* v) { auto s = v->asBlob(); sink_view(s.data(), s.size()); } \
void X##_size(const T* v) { sink_u64(v->arraySize()); } \
void X##_keys(const T* v) { for (std::string_view s : v->mapKeys()) sink_view(s.data(), s.size()); } \
void X##_has(const T* v, const char* k, std::size_t n) { sink_bool(v->contains(std::string_view(k, n))); } \
void X##_at(const T* v, std::size_t i, V* o) { ::new (static_cast<void*>(o)) V((*v)[i]); } \
void X##_get(const T* v, const char* k, std::size_t n, V* o) { ::new (static_cast<void*>(o)) V((*v)[std::string_view(k, n)]); } \
}
READ(drv_d, D)
READ(drv_v, V)
