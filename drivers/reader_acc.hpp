// every accessor on the root value and on an arbitrary element value
// (D, OPEN and IN are defined by the including unit)
#define ACC(name, expr) \
  extern "C" void drv_root_##name(IN) { OPEN auto&& v = d; expr; } \
  extern "C" void drv_elem_##name(IN, std::size_t idx) { OPEN auto v = d[idx]; expr; }
ACC(isNull, sink_bool(v.isNull()))
ACC(isBool, sink_bool(v.isBool()))
ACC(isInt, sink_bool(v.isInt()))
ACC(isUInt, sink_bool(v.isUInt()))
ACC(isFloat, sink_bool(v.isFloat()))
ACC(isString, sink_bool(v.isString()))
ACC(isBlob, sink_bool(v.isBlob()))
ACC(isMap, sink_bool(v.isMap()))
ACC(isArray, sink_bool(v.isArray()))
ACC(asBool, sink_bool(v.asBool()))
ACC(asInt8, sink_i64(v.asInt8()))
ACC(asInt16, sink_i64(v.asInt16()))
ACC(asInt32, sink_i64(v.asInt32()))
ACC(asInt64, sink_i64(v.asInt64()))
ACC(asUInt8, sink_u64(v.asUInt8()))
ACC(asUInt16, sink_u64(v.asUInt16()))
ACC(asUInt32, sink_u64(v.asUInt32()))
ACC(asUInt64, sink_u64(v.asUInt64()))
ACC(asDouble, sink_f64(v.asDouble()))
ACC(asFloat, sink_f32(v.asFloat()))
ACC(asStringView, auto s = v.asStringView(); sink_view(s.data(), s.size()))
ACC(asString, auto s = v.asString(); sink_obj(&s))
ACC(asBlob, auto b = v.asBlob(); sink_view(b.data(), b.size()))
ACC(arraySize, sink_u64(v.arraySize()))
// ---- navigation ----
extern "C" void drv_root_index(IN, std::size_t i, std::size_t j) { OPEN auto v = d[i]; auto w = v[j]; sink_bool(w.isNull()); }
extern "C" void drv_root_lookup(IN, const char* k, std::size_t kn) { OPEN auto v = d[std::string_view(k, kn)]; sink_bool(v.isNull()); }
extern "C" void drv_elem_lookup(IN, std::size_t i, const char* k, std::size_t kn) { OPEN auto e = d[i]; auto v = e[std::string_view(k, kn)]; sink_bool(v.isNull()); }
extern "C" void drv_root_contains(IN, const char* k, std::size_t kn) { OPEN sink_bool(d.contains(std::string_view(k, kn))); }
extern "C" void drv_elem_contains(IN, std::size_t i, const char* k, std::size_t kn) { OPEN auto e = d[i]; sink_bool(e.contains(std::string_view(k, kn))); }
extern "C" void drv_root_keys(IN) { OPEN for (std::string_view s : d.mapKeys()) sink_view(s.data(), s.size()); }
extern "C" void drv_elem_keys(IN, std::size_t i) { OPEN auto e = d[i]; for (std::string_view s : e.mapKeys()) sink_view(s.data(), s.size()); }
