Z = 'include/zerialize/protocols/zera.hpp'
M = 'include/zerialize/protocols/msgpack.hpp'
ZH = r'''
#include <zerialize/zerialize.hpp>
#include <zerialize/protocols/zera.hpp>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace zerialize;
using Bytes = std::vector<uint8_t>;
static void le(Bytes& b, size_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) b[at + i] = uint8_t(v >> (8 * i)); }
static Bytes header(uint32_t root, uint32_t env, uint32_t arena, size_t total) {
    Bytes b(total, 0);
    le(b, 0, 0x564E455A, 4); le(b, 4, 1, 2); le(b, 6, 1, 2); le(b, 8, root, 4); le(b, 12, env, 4); le(b, 16, arena, 4);
    return b;
}
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
'''
MH = r'''
#include <zerialize/zerialize.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <cstdio>
#include <vector>
using namespace zerialize;
using Bytes = std::vector<uint8_t>;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
static MsgPackDeserializer rd(const Bytes& b) { return MsgPackDeserializer(std::span<const uint8_t>(b.data(), b.size())); }
'''
SEEDS = [
dict(id='C01-arena-sum-32bit', property='C01',
  edits=[(Z, 'require(std::size_t(ofs) + std::size_t(len) <= arena_len_, "zera: arena span out of bounds");', 'require(ofs + len <= arena_len_, "zera: arena span out of bounds");', 1),
         (Z, 'require(len <= arena_len_, "zera: arena length out of bounds");', 'require(len <= buf_len_ || ofs == 0 || len > arena_len_, "zera: arena length out of bounds");', 1)],
  demo=ZH + r'''
int main() {
    // blob: arena offset 16, length 2^32-16: the sum wraps to 0 in 32 bits
    Bytes b = header(0, 28, 48, 48 + 32);
    b[20] = 7; le(b, 22, 2, 2); le(b, 24, 16, 4); le(b, 28, 0xfffffff0u, 4); le(b, 32, 16, 4);
    le(b, 36, 1, 4); le(b, 40, 0xfffffff0u, 8);
    zera::ZeraDeserializer d(std::span<const uint8_t>(b.data(), b.size()));
    CHECK(rejects([&] { (void)d.asBlob(); }));
    return 0;
}
''', needs='a blob reference whose arena offset plus length wraps around 2^32', breaks='asBlob hands out a 4 GiB view outside the buffer'),
dict(id='C02-skip-array32', property='C02',
  edits=[(M, 'if (v.size() < 5) throw DeserializationError("array32");', 'if (v.size() + 1 < 5) throw DeserializationError("array32");')],
  flags='-fsanitize=address',
  demo=MH + r'''
int main() {
    uint8_t* h = new uint8_t[5]{0x91, 0xdd, 0, 0, 0};
    MsgPackDeserializer d(std::span<const uint8_t>(h, 5));
    bool ok = rejects([&] { (void)d[size_t(0)]; });
    delete[] h;
    CHECK(ok);
    return 0;
}
''', needs='a nested array32 header whose last count byte is missing', breaks='the skipper reads one byte past the end of the input'),
dict(id='C05-zera-int32-min', property='C05',
  edits=[(Z, 'if (v < std::numeric_limits<std::int32_t>::min() || v > std::numeric_limits<std::int32_t>::max())', 'if (v < -std::int64_t(std::numeric_limits<std::uint32_t>::max()) || v > std::numeric_limits<std::int32_t>::max())')],
  demo=ZH + r'''
int main() {
    zera::RootSerializer rs; zera::Serializer s(rs); s.int64(-3000000000LL);
    ZBuffer b = rs.finish();
    zera::ZeraDeserializer d(b.buf());
    CHECK(rejects([&] { (void)d.asInt32(); }));
    return 0;
}
''', needs='a stored integer between -(2^32-1) and -2^31-1 read as int32', breaks='asInt32 wraps instead of throwing'),
dict(id='C09-arena-end', property='C09',
  edits=[(Z, 'require((h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");', 'require(((h.arena_ofs - HeaderSize - h.env_size) & ~(ArenaBaseAlign - 1)) == 0 || (h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");')],
  demo=ZH + r'''
int main() {
    Bytes b = header(0, 16, 40, 64);
    CHECK(rejects([&] { zera::ZeraDeserializer d(std::span<const uint8_t>(b.data(), b.size())); }));
    return 0;
}
''', needs='an arena offset that is not a multiple of 16 but within 15 bytes of the envelope end', breaks='a misaligned arena is accepted, so blobs are no longer 16-aligned'),
dict(id='C29-inline-len', property='C29',
  edits=[(Z, 'const auto len = aux();', 'const auto len = std::uint8_t(aux());')],
  demo=ZH + r'''
int main() {
    Bytes b = header(0, 16, 48, 48);
    b[20] = 4; b[21] = 1; le(b, 22, 0x0105, 2); std::memcpy(&b[24], "hello", 5);
    zera::ZeraDeserializer d(std::span<const uint8_t>(b.data(), b.size()));
    CHECK(rejects([&] { (void)d.asStringView(); }));
    return 0;
}
''', needs='an inline string reference whose 16-bit length has a non-zero high byte', breaks='an invalid inline string is accepted with a truncated length'),
]
