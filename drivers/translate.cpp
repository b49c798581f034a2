#include <zerialize/zerialize.hpp>
#include <zerialize/translate.hpp>
#include "mock.hpp"
using namespace zerialize;
extern "C" void drv_value(std::uint64_t h) { Node v; v.h = h; EvWriter w; write_value(v, w); }
extern "C" void drv_translate(std::uint64_t h) { Node v; v.h = h; auto d = translate<MockProtocol>(v); (void)d; }
struct Deep : MockValue<Deep, -1> {};
extern "C" void drv_deep(std::uint64_t h) { Deep v; v.h = h; EvWriter w; write_value(v, w); }
