#include <zerialize/zbuffer.hpp>
#include <zerialize/concepts.hpp>
#include "mock.hpp"
#include <stdexcept>
using zerialize::ZBuffer;
using std::uint8_t;
using std::size_t;
extern "C" {
void ev_del(const void* p, std::uint64_t id) noexcept;
void ev_at(std::uint64_t step) noexcept;
void ev_data(const void* p, size_t n) noexcept;
void ev_flag(bool) noexcept;
}
static inline void show(const ZBuffer& b) { ev_result(b.data(), b.size()); }
static inline void look(const ZBuffer& b) {
  ev_data(b.data(), b.size()); auto s = b.buf(); ev_data(s.data(), s.size()); ev_flag(b.empty()); ev_flag(b.owned()); }
using FU = std::function<void(uint8_t*)>;
using FC = std::function<void(char*)>;
using FV = std::function<void(void*)>;
static auto du = [](uint8_t* p) { ev_del(p, 1); };

// from a vector
extern "C" void drv_vec(const uint8_t* p, size_t n) { std::vector<uint8_t> v(p, p + n); ZBuffer b(std::move(v)); show(b); ev_flag(b.owned()); ev_flag(b.empty()); }
extern "C" void drv_vec_copyout(const uint8_t* p, size_t n) { ZBuffer b(std::vector<uint8_t>(p, p + n)); auto c = b.to_vector_copy(); ev_result(c.data(), c.size()); }
extern "C" void drv_vec_debug(const uint8_t* p, size_t n) { ZBuffer b(std::vector<uint8_t>(p, p + n)); auto c = b.to_debug_string(); ev_result(c.data(), c.size()); }
extern "C" void drv_vec_move(const uint8_t* p, size_t n) { ZBuffer a(std::vector<uint8_t>(p, p + n)); ZBuffer b(std::move(a)); show(b); }
extern "C" void drv_vec_assign(const uint8_t* p, size_t n) { ZBuffer a(std::vector<uint8_t>(p, p + n)); ZBuffer b; b = std::move(a); show(b); }
extern "C" void drv_empty() { ZBuffer b; show(b); ev_flag(b.empty()); }
// foreign memory: one owner, deleter runs once with the original pointer
extern "C" void drv_u8(uint8_t* p, size_t n) { { ZBuffer b(p, n, FU(du)); look(b); ev_at(0); } ev_at(1); }
extern "C" void drv_c8(char* p, size_t n) { { ZBuffer b(p, n, FC([](char* q) { ev_del(q, 1); })); look(b); ev_at(0); } ev_at(1); }
extern "C" void drv_v8(void* p, size_t n) { { ZBuffer b(p, n, FV([](void* q) { ev_del(q, 1); })); look(b); ev_at(0); } ev_at(1); }
extern "C" void drv_copyout(uint8_t* p, size_t n) { ZBuffer b(p, n, FU(du)); auto c = b.to_vector_copy(); ev_result(c.data(), c.size()); }
extern "C" void drv_debug(uint8_t* p, size_t n) { ZBuffer b(p, n, FU(du)); auto c = b.to_debug_string(); ev_result(c.data(), c.size()); }
extern "C" void drv_state(uint8_t* p, size_t n, std::uint64_t id) { { ZBuffer b(p, n, FU([id](uint8_t* q) { ev_del(q, id); })); ev_at(0); } ev_at(1); }
extern "C" void drv_move(uint8_t* p, size_t n) {
  { ZBuffer c; { ZBuffer a(p, n, FU(du)); ZBuffer b(std::move(a)); ev_at(0); look(b); ev_data(a.data(), a.size()); c = std::move(b); ev_at(1); look(c); ev_data(b.data(), b.size()); } ev_at(2); } ev_at(3); }
extern "C" void drv_replace(uint8_t* p, size_t n, uint8_t* q, size_t m) {
  { ZBuffer a(p, n, FU(du)); ZBuffer b(q, m, FU([](uint8_t* x) { ev_del(x, 2); })); ev_at(0); a = std::move(b); ev_at(1); look(a); } ev_at(2); }
extern "C" void drv_drop(uint8_t* p, size_t n, const uint8_t* q, size_t m) {
  { ZBuffer a(p, n, FU(du)); ev_at(0); a = ZBuffer(std::vector<uint8_t>(q, q + m)); ev_at(1); show(a); } ev_at(2); }
extern "C" void drv_takeover(const uint8_t* q, size_t m, uint8_t* p, size_t n) {
  { ZBuffer a(std::vector<uint8_t>(q, q + m)); a = ZBuffer(p, n, FU(du)); ev_at(0); look(a); } ev_at(1); }
// refused constructions
extern "C" void drv_null_u8(size_t n) { { ZBuffer b(static_cast<uint8_t*>(nullptr), n, FU(du)); ev_at(0); ev_data(b.data(), b.size()); } ev_at(1); }
extern "C" void drv_null_c8(size_t n) { { ZBuffer b(static_cast<char*>(nullptr), n, FC([](char* q) { ev_del(q, 1); })); ev_at(0); ev_data(b.data(), b.size()); } ev_at(1); }
extern "C" void drv_null_v8(size_t n) { { ZBuffer b(static_cast<void*>(nullptr), n, FV([](void* q) { ev_del(q, 1); })); ev_at(0); ev_data(b.data(), b.size()); } ev_at(1); }
extern "C" void drv_nodel_u8(uint8_t* p, size_t n) { ZBuffer b(p, n, FU()); ev_at(0); }
extern "C" void drv_nodel_c8(char* p, size_t n) { ZBuffer b(p, n, FC()); ev_at(0); }
extern "C" void drv_nodel_v8(void* p, size_t n) { ZBuffer b(p, n, FV()); ev_at(0); }
// stock deleters
extern "C" void drv_free(size_t n) { void* p = std::malloc(n); if (!p) return; ZBuffer b(p, n, ZBuffer::Deleters::Free); look(b); }
extern "C" void drv_array(size_t n) { uint8_t* p = new uint8_t[n]; ZBuffer b(p, n, ZBuffer::Deleters::DeleteArray); ZBuffer c(std::move(b)); look(c); }
extern "C" void drv_noop(uint8_t* p, size_t n) { ZBuffer b(p, n, ZBuffer::Deleters::NoOp); look(b); }
static_assert(!std::is_copy_constructible_v<ZBuffer> && !std::is_copy_assignable_v<ZBuffer>);
static_assert(std::is_nothrow_move_constructible_v<ZBuffer> && std::is_nothrow_move_assignable_v<ZBuffer>);
