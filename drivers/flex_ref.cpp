// The adapter's accessors beside what the underlying reference reports.
#include <zerialize/protocols/flex.hpp>
using P = zerialize::Flex;
#include "rt.hpp"
using Ref = ::flexbuffers::Reference;
#define INTS(X, T) \
extern "C" { \
void X##_i8(const T* v) { sink_i64(v->asInt8()); } \
void X##_i16(const T* v) { sink_i64(v->asInt16()); } \
void X##_i32(const T* v) { sink_i64(v->asInt32()); } \
void X##_u8(const T* v) { sink_u64(v->asUInt8()); } \
void X##_u16(const T* v) { sink_u64(v->asUInt16()); } \
void X##_u32(const T* v) { sink_u64(v->asUInt32()); } \
}
INTS(drv_d, D)
INTS(drv_v, V)
extern "C" {
std::size_t drv_ref_sizeof() { return sizeof(Ref); }
void drv_ref_make(Ref* r, const std::uint8_t* p, std::uint8_t pw, std::uint8_t bw, int t) { ::new (static_cast<void*>(r)) Ref(p, pw, bw, static_cast<::flexbuffers::Type>(t)); }
void drv_ref_wrap(D* d, const Ref* r) { ::new (static_cast<void*>(d)) D(*r); }
void drv_ref_value(V* v, const Ref* r) { ::new (static_cast<void*>(v)) V(*r); }
void drv_ref_bool(const Ref* r) { sink_bool(r->AsBool()); }
void drv_ref_i64(const Ref* r) { sink_i64(r->AsInt64()); }
void drv_ref_u64(const Ref* r) { sink_u64(r->AsUInt64()); }
void drv_ref_f64(const Ref* r) { sink_f64(r->AsDouble()); }
void drv_ref_str(const Ref* r) { auto s = r->AsString(); sink_view(s.c_str(), s.size()); }
void drv_ref_blob(const Ref* r) { auto s = r->AsBlob(); sink_view(s.data(), s.size()); }
void drv_ref_size(const Ref* r) {
    if (r->IsTypedVector()) sink_u64(r->AsTypedVector().size());
    else if (r->IsFixedTypedVector()) sink_u64(r->AsFixedTypedVector().size());
    else sink_u64(r->AsVector().size());
}
void drv_ref_at(const Ref* r, std::size_t i, Ref* o) {
    if (r->IsTypedVector()) ::new (static_cast<void*>(o)) Ref(r->AsTypedVector()[i]);
    else if (r->IsFixedTypedVector()) ::new (static_cast<void*>(o)) Ref(r->AsFixedTypedVector()[i]);
    else ::new (static_cast<void*>(o)) Ref(r->AsVector()[i]);
}
}
