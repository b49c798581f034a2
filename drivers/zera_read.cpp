#include <zerialize/protocols/zera.hpp>
#include "sinks.hpp"
using D = zerialize::Zera::Deserializer;
#define IN const std::uint8_t* p, std::size_t n
#define OPEN D d(std::span<const std::uint8_t>(p, n));
#include "reader_acc.hpp"
