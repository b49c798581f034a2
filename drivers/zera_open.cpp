#include <zerialize/protocols/zera.hpp>
#include "sinks.hpp"
using D = zerialize::Zera::Deserializer;
extern "C" void drv_open_span(const std::uint8_t* p, std::size_t n) { D d(std::span<const std::uint8_t>(p, n)); sink_obj(&d); }
extern "C" void drv_open_ptr(const std::uint8_t* p, std::size_t n) { D d(p, n); sink_obj(&d); }
extern "C" void drv_open_bytes(const std::byte* p, std::size_t n) { D d(p, n); sink_obj(&d); }
