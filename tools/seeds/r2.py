Z = 'include/zerialize/protocols/zera.hpp'
M = 'include/zerialize/protocols/msgpack.hpp'
B = 'include/zerialize/zbuffer.hpp'
S = 'include/zerialize/internals/serializers.hpp'
D = 'include/zerialize/dynamic.hpp'
TR = 'include/zerialize/translate.hpp'
H = r'''
#include <zerialize/zerialize.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace zerialize;
using namespace std::string_view_literals;
using Bytes = std::vector<uint8_t>;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
static MsgPackDeserializer rd(const Bytes& b) { return MsgPackDeserializer(std::span<const uint8_t>(b.data(), b.size())); }
'''
SEEDS = [
dict(id='C10-key-nul', property='C10',
  edits=[(TR, 'w.key(std::string(k));', 'w.key(std::string(k).c_str());')],
  demo=H + r'''
int main() {
    dyn::Value::Map m; m.emplace_back(std::string("a\0b", 3), dyn::Value(7)); 
    auto buf = serialize<Zera>(dyn::Value(m));
    zera::ZeraDeserializer src(buf.to_vector_copy());
    auto out = translate<MsgPack>(src);
    CHECK(out.contains("a\0b"sv));
    CHECK(out["a\0b"sv].asInt64() == 7);
    return 0;
}
''', needs='a map key with an embedded NUL byte', breaks='translate() cuts the key at the NUL'),
dict(id='C10-empty-blob', property='C10',
  edits=[(TR, '        w.binary(b);\n', '        if (b.empty()) w.null(); else w.binary(b);\n')],
  demo=H + r'''
int main() {
    auto buf = serialize<MsgPack>(std::vector<std::byte>{});
    auto out = translate<Zera>(MsgPackDeserializer(buf.to_vector_copy()));
    CHECK(out.isBlob());
    CHECK(out.asBlob().empty());
    return 0;
}
''', needs='an empty blob in the source document', breaks='translate() turns an empty blob into null'),
dict(id='C11-ushort-sign', property='C11',
  edits=[(S, 'void serialize(unsigned short v, W& w) { w.uint64(v); }', 'void serialize(unsigned short v, W& w) { w.uint64(static_cast<short>(v)); }')],
  demo=H + r'''
int main() {
    auto buf = serialize<MsgPack>(static_cast<unsigned short>(40000));
    CHECK(MsgPackDeserializer(buf.to_vector_copy()).asUInt64() == 40000);
    return 0;
}
''', needs='an unsigned short of 32768 or more', breaks='the value is sign-extended to 64 bits'),
dict(id='C11-string-nul', property='C11',
  edits=[(S, 'void serialize(const std::string& v, W& w) { w.string(v); }', 'void serialize(const std::string& v, W& w) { w.string(v.c_str()); }')],
  demo=H + r'''
int main() {
    std::string s("x\0y", 3);
    auto buf = serialize<MsgPack>(s);
    CHECK(MsgPackDeserializer(buf.to_vector_copy()).asStringView() == s);
    return 0;
}
''', needs='a std::string with an embedded NUL byte', breaks='the string is cut at the NUL'),
dict(id='C12-serializable-alias', property='C12',
  edits=[(D, 'auto ptr = std::make_shared<V>(std::forward<T>(v));', 'std::shared_ptr<V> ptr;\n        if constexpr (std::is_lvalue_reference_v<T>) ptr = std::shared_ptr<V>(const_cast<V*>(&v), [](V*) {});\n        else ptr = std::make_shared<V>(std::forward<T>(v));')],
  demo=H + r'''
int main() {
    std::vector<int> x{1, 2, 3};
    dyn::Value v = dyn::serializable(x);
    x = {9};
    auto buf = serialize<MsgPack>(v);
    MsgPackDeserializer d(buf.to_vector_copy());
    CHECK(d.arraySize() == 3);
    CHECK(d[0].asInt64() == 1);
    return 0;
}
''', needs='an lvalue wrapped with dyn::serializable and modified (or destroyed) before the value is written', breaks='dyn::Value refers to the caller\'s object instead of owning a copy'),
dict(id='C12-uint-narrow', property='C12',
  edits=[(D, 'void uint64(std::uint64_t v){ u64_fn(ctx, v); }', 'void uint64(std::uint64_t v){ if (v >> 63) dbl_fn(ctx, static_cast<double>(v)); else u64_fn(ctx, v); }')],
  demo=H + r'''
struct Big { std::uint64_t v; };
template <Writer W> void serialize(const Big& b, W& w) { w.uint64(b.v); }
int main() {
    auto buf = serialize<MsgPack>(dyn::serializable(Big{0xffffffffffffffffULL}));
    MsgPackDeserializer d(buf.to_vector_copy());
    CHECK(d.isUInt());
    CHECK(d.asUInt64() == 0xffffffffffffffffULL);
    return 0;
}
''', needs='a custom serializable object that writes an unsigned value of 2^63 or more through the type-erased writer', breaks='the value arrives as a rounded double'),
dict(id='C13-debug-nul', property='C13',
  edits=[(B, 'return std::string(reinterpret_cast<const char*>(ptr), count);', 'return std::string(reinterpret_cast<const char*>(ptr), strnlen(reinterpret_cast<const char*>(ptr), count));'),
         (B, '#include <cctype>\n', '#include <cctype>\n#include <cstring>\n')],
  demo=H + r'''
int main() {
    ZBuffer b(std::vector<uint8_t>{'a', 0, 'b'});
    CHECK(b.to_debug_string().size() == 3);
    return 0;
}
''', needs='a buffer containing a zero byte', breaks='to_debug_string() returns only the bytes before the first zero byte'),
dict(id='C13-null-one', property='C13',
  edits=[(B, 'if (ptr_to_delete) { // Avoid casting/deleting null\n', 'if (ptr_to_delete && *ptr_to_delete) { // Avoid casting/deleting null\n')],
  demo=H + r'''
int main() {
    int runs = 0; char mem[4] = {0, 'x', 'y', 'z'};
    { ZBuffer b(mem, 4, std::function<void(char*)>([&](char* p) { runs += p == mem; })); }
    CHECK(runs == 1);
    return 0;
}
''', needs='a char* buffer whose first byte is zero', breaks='the deleter never runs: the foreign memory leaks'),
dict(id='C04-negfix', property='C04',
  edits=[(M, 'return (m <= 0x7f) || (m >= 0xe0) || (m==0xd0||m==0xd1||m==0xd2||m==0xd3);', 'return (m <= 0x7f) || (m > 0xe0) || (m==0xd0||m==0xd1||m==0xd2||m==0xd3);')],
  demo=H + r'''
int main() {
    CHECK(rd({0xe0}).isInt());
    CHECK(rd({0xe1}).isInt());
    return 0;
}
''', needs='the single negative fixint -32', breaks='-32 is not recognised as an integer'),
dict(id='C18-thread-local-sv', property='C18',
  edits=[(M, 'return std::string_view(reinterpret_cast<const char*>(p), n);', 'if (n == 32) { static thread_local char copy[32]; std::memcpy(copy, p, n); return std::string_view(copy, n); }\n        return std::string_view(reinterpret_cast<const char*>(p), n);')],
  demo=H + r'''
int main() {
    Bytes b(35, 'q'); b[0] = 0xd9; b[1] = 32; b.resize(34);
    auto sv = rd(b).asStringView();
    CHECK(sv.data() == reinterpret_cast<const char*>(b.data()) + 2);
    return 0;
}
''', needs='a string of exactly 32 bytes', breaks='asStringView() returns a view of a shared scratch copy, overwritten by the next such call'),
dict(id='C16-out-of-range', property='C16',
  edits=[(Z, 'throw DeserializationError("zera: int32 out of range");', 'throw std::out_of_range("zera: int32 out of range");'),
         (Z, '#include <cstring>\n', '#include <cstring>\n#include <stdexcept>\n')],
  demo=H + r'''
int main() {
    auto buf = serialize<Zera>(std::int64_t(1) << 40);
    zera::ZeraDeserializer d(buf.to_vector_copy());
    try { (void)d.asInt32(); return 1; } catch (const DeserializationError&) { return 0; } catch (...) { std::puts("other exception"); return 1; }
}
''', needs='asInt32 on a value outside the 32-bit range', breaks='a type other than DeserializationError is thrown'),
]
