#include <vector>
#include <zerialize/protocols/json.hpp>
#include "sinks.hpp"
using D = zerialize::JSON::Deserializer;
#define IN std::uint64_t h, std::uint64_t dh
#define OPEN D v(reinterpret_cast<yyjson_val*>(h), reinterpret_cast<yyjson_doc*>(dh));
extern "C" void drv_isBlob(IN) { OPEN sink_bool(v.isBlob()); }
extern "C" void drv_asBlob(IN) { OPEN auto b = v.asBlob(); sink_view(reinterpret_cast<const char*>(b.data()), b.size()); }
