#include <zerialize/protocols/cbor.hpp>
#include "sinks.hpp"
extern "C" void drv_root_asBlobVec(const std::uint8_t* p, std::size_t n) {
  zerialize::CBOR::Deserializer d(std::span<const std::uint8_t>(p, n));
  auto b = d.asBlobVec(); sink_view(b.data(), b.size());
}
