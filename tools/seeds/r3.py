Z = 'include/zerialize/protocols/zera.hpp'
M = 'include/zerialize/protocols/msgpack.hpp'
F = 'include/zerialize/protocols/flex.hpp'
D = 'include/zerialize/dynamic.hpp'
U = 'include/zerialize/tensor/utils.hpp'
X = 'include/zerialize/tensor/xtensor.hpp'
G = 'include/zerialize/tensor/eigen.hpp'
B64 = 'include/zerialize/internals/base64.hpp'
ZB = 'include/zerialize/zbuilders.hpp'
H = r'''
#include <zerialize/zerialize.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace zerialize;
using namespace std::string_view_literals;
using Bytes = std::vector<uint8_t>;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
'''
HT = H + r'''
#include <set>
#include <zerialize/tensor/utils.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <zerialize/tensor/xtensor.hpp>
'''
SEEDS = [
dict(id='C06-count-16bit', property='C06',
  edits=[(Z, '[u32 count][ValueRef16...]\n        std::uint32_t count = 0;', '[u32 count][ValueRef16...]\n        std::uint16_t count = 0;')],
  demo=H + r'''
int main() {
    zera::RootSerializer r; zera::Serializer s(r);
    s.begin_array(70000);
    for (int i = 0; i < 70000; ++i) s.int64(i);
    s.end_array();
    auto buf = r.finish();
    zera::ZeraDeserializer d(buf.to_vector_copy());
    CHECK(d.arraySize() == 70000);
    CHECK(d[69999].asInt64() == 69999);
    return 0;
}
''', needs='an array of more than 65535 elements', breaks='the element counter of an open array wraps at 16 bits, so the array reads back short'),
dict(id='C07-small-blob-align', property='C07',
  edits=[(Z, 'r->arena_alloc(byte_len, ArenaBaseAlign)', 'r->arena_alloc(byte_len, std::min<std::size_t>(std::max<std::size_t>(byte_len, 8), ArenaBaseAlign))')],
  demo=H + r'''
int main() {
    zera::RootSerializer r; zera::Serializer s(r);
    std::byte b[5] = {};
    s.begin_array(2); s.string("123456789012345678901234"); s.binary(std::span<const std::byte>(b, 5)); s.end_array();
    auto buf = r.finish();
    auto bytes = buf.to_vector_copy();
    zera::ZeraDeserializer d(std::span<const uint8_t>(bytes.data(), bytes.size()));
    auto p = reinterpret_cast<const uint8_t*>(d[1].asBlob().data());
    CHECK((p - bytes.data()) % 16 == 0);
    return 0;
}
''', needs='a blob shorter than 16 bytes after an out-of-line string whose length is 8 modulo 16', breaks='blob payloads are no longer 16-byte aligned'),
dict(id='C08-second-root', property='C08',
  edits=[(Z, 'if (root_ofs_) throw SerializationError("zera: multiple root values");', 'if (root_ofs_ && env_.size() > *root_ofs_ + vr.size()) throw SerializationError("zera: multiple root values");')],
  demo=H + r'''
int main() {
    auto twice = [](bool arr) {
        zera::RootSerializer r; zera::Serializer s(r);
        try {
            if (arr) { s.begin_array(0); s.end_array(); } else s.null();
            s.int64(1);
            r.finish();
        } catch (const SerializationError&) { return true; }
        return false;
    };
    CHECK(twice(false));
    CHECK(twice(true));
    return 0;
}
''', needs='two root values one after the other', breaks='a second root value silently replaces the first one instead of being refused'),
dict(id='C14-url-safe', property='C14',
  edits=[(B64, '64,64,64,64,64,64,64,64,64,64,64,62,64,64,64,63,', '64,64,64,64,64,64,64,64,64,64,64,62,64,62,64,63,')],
  demo=H + r'''
#include <zerialize/internals/base64.hpp>
int main() {
    CHECK(rejects([] { base64Decode("AA-A"); }));
    CHECK(base64Decode("AA+A").size() == 3);
    return 0;
}
''', needs="a text containing '-'", breaks='a character outside the standard alphabet is accepted'),
dict(id='C15-align-word', property='C15',
  edits=[(X, 'info.address % alignof(T)', 'info.address % std::min<std::size_t>(alignof(T), 4)')],
  demo=HT + r'''
int main() {
    xt::xarray<double> a{{1.0, 2.0}};
    auto buf = serialize<MsgPack>(a);
    auto v = buf.to_vector_copy();
    for (int off = 0; off < 16; ++off) {
        alignas(16) static uint8_t mem[256];
        std::memcpy(mem + off, v.data(), v.size());
        MsgPackDeserializer d(std::span<const uint8_t>(mem + off, v.size()));
        auto t = xtensor::asXTensorView<double>(d);
        CHECK(!t.viewInfo().zero_copy || t.viewInfo().address % alignof(double) == 0);
    }
    return 0;
}
''', needs='a blob whose address is a multiple of 4 but not of 8, element type double', breaks='a misaligned blob is viewed in place as doubles'),
dict(id='C15-fixed-rows', property='C15',
  edits=[(G, 'if (cols != static_cast<std::size_t>(NCols)) {', 'if (cols * rows != static_cast<std::size_t>(NCols) * rows) {')],
  demo=HT + r'''
int main() {
    Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> m(0, 5);
    auto buf = serialize<MsgPack>(m);
    auto v = buf.to_vector_copy();
    MsgPackDeserializer d(std::span<const uint8_t>(v.data(), v.size()));
    CHECK(rejects([&] { eigen::asEigenMatrixView<double, Eigen::Dynamic, 2>(d); }));
    return 0;
}
''', needs='a matrix without rows whose number of columns is not the fixed one', breaks='another extent than the fixed one is accepted'),
dict(id='C17-keys-large-value', property='C17',
  edits=[(M, 'off += key_sz + val_sz;', 'off += key_sz + static_cast<std::uint16_t>(val_sz);')],
  demo=H + r'''
int main() {
    MsgPackRootSerializer r; MsgPackSerializer s(r);
    std::vector<std::byte> big(70000);
    s.begin_map(2); s.key("a"); s.binary(big); s.key("b"); s.null(); s.end_map();
    auto buf = r.finish();
    auto v = buf.to_vector_copy();
    MsgPackDeserializer d(std::span<const uint8_t>(v.data(), v.size()));
    std::vector<std::string> ks;
    auto k = d.mapKeys();
    auto it = k.begin();
    for (int i = 0; i < 2; ++i, ++it) { try { ks.emplace_back(*it); } catch (const std::exception&) {} }
    CHECK(ks.size() == 2 && ks[0] == "a" && ks[1] == "b");
    return 0;
}
''', needs='a map value of 64 KiB or more that is not the last one', breaks='key iteration continues inside the value'),
dict(id='C20-key-nul', property='C20',
  edits=[(M, 'void key(std::string_view k)    { string(k); }', "void key(std::string_view k)    { string(k.substr(0, k.find('\\0'))); }")],
  demo=H + r'''
int main() {
    MsgPackRootSerializer r; MsgPackSerializer s(r);
    s.begin_map(1); s.key("a\0b"sv); s.null(); s.end_map();
    auto buf = r.finish();
    auto v = buf.to_vector_copy();
    const uint8_t want[] = {0x81, 0xa3, 'a', 0, 'b', 0xc0};
    CHECK(v.size() == 6 && std::memcmp(v.data(), want, 6) == 0);
    return 0;
}
''', needs='a key with an embedded NUL byte', breaks='the key is cut at the NUL'),
dict(id='C22-uint-as-int', property='C22', libs='-lmsgpackc -lflatbuffers',
  edits=[(F, 'r->fbb.UInt(v); r->wrote_root_ = true;', 'if (v >> 63) r->fbb.Int(static_cast<std::int64_t>(v)); else r->fbb.UInt(v); r->wrote_root_ = true;')],
  demo=H + r'''
#include <zerialize/protocols/flex.hpp>
int main() {
    flex::RootSerializer r; flex::Serializer s(r);
    s.uint64(0x8000000000000001ull);
    auto buf = r.finish();
    flex::FlexDeserializer d(buf.to_vector_copy());
    CHECK(d.isUInt());
    CHECK(d.asUInt64() == 0x8000000000000001ull);
    return 0;
}
''', needs='an unsigned value of 2^63 or more', breaks='large unsigned values read back as negative integers'),
dict(id='C25-rows-16bit', property='C25',
  edits=[(G, '        static_cast<std::size_t>(m.rows()),\n', '        static_cast<std::uint16_t>(m.rows()),\n')],
  demo=HT + r'''
int main() {
    Eigen::Matrix<std::uint8_t, Eigen::Dynamic, Eigen::Dynamic> m(70000, 1);
    m.setZero();
    auto buf = serialize<MsgPack>(m);
    auto v = buf.to_vector_copy();
    MsgPackDeserializer d(std::span<const uint8_t>(v.data(), v.size()));
    CHECK(d[1][0].asUInt64() == 70000);
    return 0;
}
''', needs='a matrix of more than 65535 rows', breaks='the stored shape is truncated'),
dict(id='C25-name-swap', property='C25',
  edits=[(U, 'tensor_dtype_index<complex<double>>: return tensor_dtype_name<complex<double>>;', 'tensor_dtype_index<complex<double>>: return tensor_dtype_name<complex<float>>;')],
  demo=HT + r'''
int main() {
    CHECK(type_name_from_code(tensor_dtype_index<std::complex<double>>) == tensor_dtype_name<std::complex<double>>);
    CHECK(type_name_from_code(13) != type_name_from_code(12));
    return 0;
}
''', needs='the name of code 13', breaks='two type codes have the same name'),
dict(id='C12-count-8bit', property='C12',
  edits=[(D, 'w.begin_array(arg.size());', 'w.begin_array(static_cast<std::uint8_t>(arg.size()));')],
  demo=H + r'''
int main() {
    dyn::Value::Array a;
    for (int i = 0; i < 300; ++i) a.push_back(dyn::Value(i));
    auto buf = serialize<MsgPack>(dyn::Value::array(std::move(a)));
    auto v = buf.to_vector_copy();
    MsgPackDeserializer d(std::span<const uint8_t>(v.data(), v.size()));
    CHECK(d.arraySize() == 300);
    return 0;
}
''', needs='a dynamic array of more than 255 elements', breaks='the announced size is truncated'),
dict(id='C24-zmap-missing-value', property='C24',
  script=r'''#!/bin/bash
# one key and two values: must not compile; one key and one value: must
D="$(cd "$(dirname "$0")" && pwd)"
C="g++ -std=gnu++20 -fsyntax-only -include memory -Iinclude -I/opt/vp/compat"
$C "$D/demo.cpp" || exit 2
if $C -DBAD "$D/demo.cpp" 2>/dev/null; then echo "FAILED: zmap with two values for one key compiles"; exit 1; fi
exit 0
''',
  edits=[(ZB, 'static_assert(sizeof...(Keys) == sizeof...(Ts),', 'static_assert(sizeof...(Keys) <= sizeof...(Ts),')],
  demo=H + r'''
// the program with one key and two values must not compile
int main() {
    auto good = serialize<Zera>(zmap<"a">(1));
    (void)good;
#ifdef BAD
    auto b = serialize<Zera>(zmap<"a">(1, 2));
    (void)b;
#endif
    return 0;
}
''', needs='a zmap with more values than keys', breaks='the mismatch compiles and a value is dropped'),
]
