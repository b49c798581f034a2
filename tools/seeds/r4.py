C = 'include/zerialize/protocols/cbor.hpp'
J = 'include/zerialize/protocols/json.hpp'
CSCRIPT = r'''#!/bin/bash
# builds and runs demo.cpp against ./include; jsoncons (CBOR writer only) is not installed: stub/ declares what the header names
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 %s -include memory -I"$D/stub" -Iinclude "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 120 "$T/demo"
'''
CH = r'''
#include <zerialize/protocols/cbor.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
using namespace zerialize;
namespace jsoncons::cbor { cbor_bytes_encoder::cbor_bytes_encoder(std::vector<std::uint8_t>&) {} cbor_bytes_encoder::~cbor_bytes_encoder() {} }
using D = CBOR::Deserializer;
// an exact-size heap block, so that reading past it is noticed
struct In { std::uint8_t* p; std::size_t n; In(std::initializer_list<std::uint8_t> b) : p(new std::uint8_t[b.size()]), n(b.size()) { std::memcpy(p, b.begin(), n); } ~In() { delete[] p; } D d() const { return D(p, n); } };
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
'''
JH = r'''
// yyjson is not installed: a miniature with the behaviour its documentation gives to the functions used here
#include <yyjson.h>
#include <string>
#include <vector>
struct yyjson_val { char k; std::string s; std::vector<yyjson_val> a; std::uint64_t u = 0; };
struct yyjson_doc { yyjson_val* root; };
static bool is(yyjson_val* v, char k) { return v && v->k == k; }
static int freed = 0;
extern "C" {
yyjson_doc* yyjson_read(const char* d, size_t n, yyjson_read_flag) noexcept { return new yyjson_doc{new yyjson_val{'s', std::string(d, n), {}}}; }
void yyjson_doc_free(yyjson_doc* d) noexcept { ++freed; delete d->root; delete d; }
yyjson_val* yyjson_doc_get_root(yyjson_doc* d) noexcept { return d ? d->root : nullptr; }
bool yyjson_is_str(yyjson_val* v) noexcept { return is(v, 's'); }
bool yyjson_is_arr(yyjson_val* v) noexcept { return is(v, 'a'); }
bool yyjson_is_obj(yyjson_val* v) noexcept { return is(v, 'o'); }
bool yyjson_is_uint(yyjson_val* v) noexcept { return is(v, 'u'); }
bool yyjson_is_sint(yyjson_val* v) noexcept { return is(v, 'i'); }
bool yyjson_is_int(yyjson_val* v) noexcept { return is(v, 'u') || is(v, 'i'); }
bool yyjson_is_real(yyjson_val* v) noexcept { return is(v, 'r'); }
bool yyjson_is_bool(yyjson_val* v) noexcept { return is(v, 'b'); }
bool yyjson_is_null(yyjson_val* v) noexcept { return is(v, 'n'); }
std::uint64_t yyjson_get_uint(yyjson_val* v) noexcept { return yyjson_is_int(v) ? v->u : 0; }
std::int64_t yyjson_get_sint(yyjson_val* v) noexcept { return yyjson_is_int(v) ? (std::int64_t)v->u : 0; }
const char* yyjson_get_str(yyjson_val* v) noexcept { return is(v, 's') ? v->s.c_str() : nullptr; }
size_t yyjson_get_len(yyjson_val* v) noexcept { return is(v, 's') ? v->s.size() : 0; }
size_t yyjson_arr_size(yyjson_val* v) noexcept { return is(v, 'a') ? v->a.size() : 0; }
yyjson_val* yyjson_arr_get(yyjson_val* v, size_t i) noexcept { return is(v, 'a') && i < v->a.size() ? &v->a[i] : nullptr; }
bool yyjson_obj_iter_init(yyjson_val* o, yyjson_obj_iter* it) noexcept { *it = yyjson_obj_iter{0, is(o, 'o') ? o->a.size() : 0, nullptr, o}; return is(o, 'o'); }
yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) noexcept { return it->idx < it->max ? &it->obj->a[it->idx++] : nullptr; }
}
#include <zerialize/protocols/json.hpp>
#include <cstdio>
using namespace zerialize;
using D = JSON::Deserializer;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
template <class F> static bool rejects(F&& f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
static yyjson_val str(std::string s) { return yyjson_val{'s', std::move(s), {}}; }
'''
ASAN = '-fsanitize=address -fno-omit-frame-pointer'
SEEDS = [
dict(id='C03-head-u16', property='C03', stub='standin_cbor', script=CSCRIPT % ASAN,
  edits=[(C, 'ensure(p+3 <= buf_.size(), "CBOR: truncated u16")', 'ensure(p+2 <= buf_.size(), "CBOR: truncated u16")')],
  demo=CH + r'''
int main() {
    CHECK((In{0x19, 0x01, 0x02}.d().asInt64() == 258));
    In i{0x82, 0x00, 0x19, 0x01};
    CHECK(rejects([&] { i.d()[std::size_t(1)].asInt64(); }));
    return 0;
}
''', needs='a buffer that ends one byte before the end of a two-byte argument', breaks='the head decoder reads one byte past the buffer'),
dict(id='C03-chunk-end', property='C03', stub='standin_cbor', script=CSCRIPT % ASAN,
  edits=[(C, 'ensure(q < buf_.size(), "CBOR: truncated indef str");', 'ensure(q <= buf_.size(), "CBOR: truncated indef str");')],
  demo=CH + r'''
int main() {
    In i{0x82, 0x7f, 0x61, 'a'};
    CHECK(rejects([&] { i.d()[std::size_t(1)].asInt64(); }));
    In j{0x82, 0x7f, 0x61, 'a', 0xff, 5};
    CHECK(j.d()[std::size_t(1)].asInt64() == 5);
    return 0;
}
''', needs='a chunked string cut off right after a chunk, skipped on the way to a later element', breaks='skipping reads the byte behind the buffer'),
dict(id='C21-half-subnormal', property='C21', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, 'std::ldexp(static_cast<double>(frac), -24)', 'std::ldexp(1.0 + static_cast<double>(frac) / 1024.0, -14)')],
  demo=CH + r'''
int main() {
    CHECK((In{0xf9, 0x3c, 0x00}.d().asDouble() == 1.0));
    CHECK((In{0xf9, 0x00, 0x01}.d().asDouble() == std::ldexp(1.0, -24)));
    CHECK((In{0xf9, 0x83, 0xff}.d().asDouble() == -std::ldexp(1023.0, -24)));
    return 0;
}
''', needs='a half-precision float with a zero exponent field and a non-zero fraction', breaks='subnormal halves decode as if they were normal'),
dict(id='C21-tag-skip', property='C21', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, '                return skip(q);\n            case 7', '                return q;\n            case 7')],
  demo=CH + r'''
int main() {
    In i{0x83, 0xc1, 0x1a, 0, 0, 0, 9, 7, 8};
    CHECK(i.d()[std::size_t(1)].asInt64() == 7);
    CHECK(i.d()[std::size_t(2)].asInt64() == 8);
    return 0;
}
''', needs='an array in which a tagged value precedes the element that is looked up', breaks='a tag is skipped without the value it belongs to'),
dict(id='C21-indef-array-nested', property='C21', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, 'if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;', 'if(buf_[q]==0xFF) break; q = read_head(q).major == 4 ? q + 1 : skip(q); ++c; } return c;')],
  demo=CH + r'''
int main() {
    In i{0x9f, 1, 0x82, 2, 3, 4, 0xff};
    CHECK(i.d().arraySize() == 3);
    return 0;
}
''', needs='an indefinite-length array that contains another array', breaks='the members of the inner array are counted as elements of the outer one'),
dict(id='C05-cbor-negative', property='C05', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, 'if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");', 'if (h.val > uint64_t(INT64_MAX) + 1) throw DeserializationError("int64 underflow");')],
  demo=CH + r'''
int main() {
    CHECK((In{0x3b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}.d().asInt64() == INT64_MIN));
    CHECK(rejects([] { In{0x3b, 0x80, 0, 0, 0, 0, 0, 0, 0}.d().asInt64(); }));
    return 0;
}
''', needs='the CBOR integer -2^63-1', breaks='it is returned as a positive number instead of an error'),
dict(id='C17-cbor-indef-prefix', property='C17', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, 'if (k == key) return true;\n                q = skip(q); // value', 'if (k.starts_with(key)) return true;\n                q = skip(q); // value')],
  demo=CH + r'''
int main() {
    In i{0xbf, 0x62, 'a', 'b', 1, 0xff};
    CHECK(!i.d().contains("a"));
    CHECK(i.d().contains("ab"));
    CHECK(rejects([&] { i.d()["a"]; }));
    return 0;
}
''', needs='an indefinite-length map and a looked-up key that is a proper prefix of one in it', breaks='contains() says yes where lookup finds nothing'),
dict(id='C16-cbor-missing-key', property='C16', stub='standin_cbor', script=CSCRIPT % '',
  edits=[(C, 'throw DeserializationError("CBOR: key not found: " + std::string(key));', 'throw std::out_of_range("CBOR: key not found: " + std::string(key));')],
  demo=CH + r'''
#include <stdexcept>
int main() {
    In i{0xa1, 0x61, 'a', 1};
    bool ok = false;
    try { i.d()["b"]; } catch (const DeserializationError&) { ok = true; } catch (const std::exception&) {}
    CHECK(ok);
    return 0;
}
''', needs='looking up a key the CBOR map does not have', breaks='an exception of another type escapes'),
dict(id='C23-blob-encoding', property='C23', stub='standin_json', script=CSCRIPT % '',
  edits=[(J, '(*this)[2].isString() && (*this)[2].asString() == blobEncoding;', '(*this)[2].isString() && (*this)[2].asString().starts_with(blobEncoding);')],
  demo=JH + r'''
int main() {
    yyjson_doc doc{nullptr};
    yyjson_val blob{'a', "", {str("~b"), str("AQID"), str("base64")}}, text{'a', "", {str("~b"), str("AQID"), str("base64url")}};
    D b(&blob, &doc), t(&text, &doc);
    CHECK(b.isBlob() && b.asBlob().size() == 3);
    CHECK(!t.isBlob());
    CHECK(rejects([&] { t.asBlob(); }));
    return 0;
}
''', needs='a three-string array whose last string merely begins with the encoding\'s name', breaks='it is taken for a blob'),
dict(id='C23-move-assign', property='C23', stub='standin_json', script=CSCRIPT % '',
  edits=[(J, '        if (this != &o) {\n            if (owns_doc_ && doc_) yyjson_doc_free(doc_);', '        {\n            if (owns_doc_ && doc_ && doc_ != o.doc_) yyjson_doc_free(doc_);')],
  demo=JH + r'''
int main() {
    {
        D d(std::string_view("x"));
        D& r = d;
        d = std::move(r);
        CHECK(freed == 0);
        CHECK(d.raw_val() != nullptr);
        CHECK(d.asString() == "x");
    }
    CHECK(freed == 1);
    return 0;
}
''', needs='a reader move-assigned to itself', breaks='the reader loses its document, which is never released'),
dict(id='C23-key-nul', property='C23', stub='standin_json', script=CSCRIPT % '',
  edits=[(J, 'return std::string_view(yyjson_get_str(key), yyjson_get_len(key));', 'return std::string_view(yyjson_get_str(key));')],
  demo=JH + r'''
int main() {
    yyjson_doc doc{nullptr};
    yyjson_val obj{'o', "", {str("a"), str(std::string("b\0c", 3))}};
    D d(&obj, &doc);
    std::vector<std::string> ks;
    for (auto k : d.mapKeys()) ks.emplace_back(k);
    CHECK(ks.size() == 2 && ks[0] == "a" && ks[1] == std::string("b\0c", 3));
    return 0;
}
''', needs='an object key containing an escaped NUL', breaks='the listed key is cut off at the NUL'),
]
