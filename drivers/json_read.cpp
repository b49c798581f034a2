#include <vector>
#include <zerialize/protocols/json.hpp>
#include "sinks.hpp"
using D = zerialize::JSON::Deserializer;
#define IN std::uint64_t h, std::uint64_t dh
#define OPEN D v(reinterpret_cast<yyjson_val*>(h), reinterpret_cast<yyjson_doc*>(dh));
#define ACC(name, expr) extern "C" void drv_##name(IN) { OPEN expr; }
ACC(isNull, sink_bool(v.isNull()))
ACC(isBool, sink_bool(v.isBool()))
ACC(isInt, sink_bool(v.isInt()))
ACC(isUInt, sink_bool(v.isUInt()))
ACC(isFloat, sink_bool(v.isFloat()))
ACC(isString, sink_bool(v.isString()))
ACC(isMap, sink_bool(v.isMap()))
ACC(isArray, sink_bool(v.isArray()))
ACC(asBool, sink_bool(v.asBool()))
ACC(asInt8, sink_i64(v.asInt8()))
ACC(asInt16, sink_i64(v.asInt16()))
ACC(asInt32, sink_i64(v.asInt32()))
ACC(asInt64, sink_i64(v.asInt64()))
ACC(asUInt8, sink_u64(v.asUInt8()))
ACC(asUInt16, sink_u64(v.asUInt16()))
ACC(asUInt32, sink_u64(v.asUInt32()))
ACC(asUInt64, sink_u64(v.asUInt64()))
ACC(asDouble, sink_f64(v.asDouble()))
ACC(asFloat, sink_f32(v.asFloat()))
ACC(asStringView, auto s = v.asStringView(); sink_view(s.data(), s.size()))
ACC(asString, auto s = v.asString(); sink_view(s.data(), s.size()))
ACC(arraySize, sink_u64(v.arraySize()))
extern "C" void drv_elem(IN, std::size_t i) { OPEN auto e = v[i]; sink_u64(reinterpret_cast<std::uint64_t>(e.raw_val())); }
extern "C" void drv_get(IN, const char* k, std::size_t kn) { OPEN auto e = v[std::string_view(k, kn)]; sink_u64(reinterpret_cast<std::uint64_t>(e.raw_val())); }
extern "C" void drv_has(IN, const char* k, std::size_t kn) { OPEN sink_bool(v.contains(std::string_view(k, kn))); }
extern "C" void drv_keys(IN) { OPEN for (auto s : v.mapKeys()) sink_view(s.data(), s.size()); }
// ownership of the parsed document
#define TEXT const std::uint8_t* p, std::size_t n
extern "C" void drv_own_open(TEXT) { D d(p, n); sink_u64(reinterpret_cast<std::uint64_t>(d.raw_val())); }
extern "C" void drv_own_move(TEXT) { D d(p, n); D e(std::move(d)); sink_u64(reinterpret_cast<std::uint64_t>(e.raw_val())); }
extern "C" void drv_own_assign(TEXT) { D d(p, n); D e(p, n); e = std::move(d); sink_u64(reinterpret_cast<std::uint64_t>(e.raw_val())); }
extern "C" void drv_own_back(TEXT) { D d(p, n); D e(std::move(d)); d = std::move(e); sink_u64(reinterpret_cast<std::uint64_t>(d.raw_val())); }
extern "C" void drv_own_self(TEXT) { D d(p, n); D& r = d; d = std::move(r); sink_u64(reinterpret_cast<std::uint64_t>(d.raw_val())); }
extern "C" void drv_own_view(TEXT) { D d(p, n); { D e(d.raw_val(), d.raw_doc()); D f(std::move(e)); } sink_u64(reinterpret_cast<std::uint64_t>(d.raw_val())); }
