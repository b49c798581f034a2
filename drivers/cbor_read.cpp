#include <zerialize/protocols/cbor.hpp>
#include "sinks.hpp"
using D = zerialize::CBOR::Deserializer;
#define IN const std::uint8_t* p, std::size_t n
#define OPEN D d(std::span<const std::uint8_t>(p, n));
#include "reader_acc.hpp"
extern "C" void drv_root_get(IN, const char* k, std::size_t kn) { OPEN sink_u64(d[std::string_view(k, kn)].asUInt64()); }
