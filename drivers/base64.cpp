#include <zerialize/internals/base64.hpp>
extern "C" void ev_result(const void*, std::size_t) noexcept;
using namespace zerialize;
extern "C" void drv_enc(const std::byte* p, std::size_t n) { auto s = base64Encode(std::span<const std::byte>(p, n)); ev_result(s.data(), s.size()); }
extern "C" void drv_dec(const char* p, std::size_t n) { auto v = base64Decode(std::string_view(p, n)); ev_result(v.data(), v.size()); }
