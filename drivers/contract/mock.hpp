// A protocol with exactly one requirement broken: BROKEN = 0 none, 1..99 member BROKEN of the
// reader/writer has a neighbouring return type, 100+k member k is missing.  Every program in this
// directory compiles with BROKEN = 0; with any other value none may.
#pragma once
#include <zerialize/zerialize.hpp>
#include <array>
#include <type_traits>
#ifndef BROKEN
#define BROKEN 0
#endif
namespace mock {
template<int B, int K, class Good, class Bad> using Ret = std::conditional_t<B == K, Bad, Good>;
template<class T> T some() { return T{}; }
template<> inline void some<void>() {}

// ------------------------------------------------------------------ reader
template<int B> struct ValueOf {
#define M(k, name, good, bad) Ret<B, k, good, bad> name() const requires (B != 100 + k) { return some<Ret<B, k, good, bad>>(); }
    M(1, isNull, bool, int) M(2, isInt, bool, int) M(3, isUInt, bool, int) M(4, isFloat, bool, int) M(5, isString, bool, int)
    M(6, isBlob, bool, int) M(7, isBool, bool, int) M(8, isMap, bool, int) M(9, isArray, bool, int)
    M(10, asInt8, std::int8_t, int) M(11, asInt16, std::int16_t, int) M(12, asInt32, std::int32_t, long) M(13, asInt64, std::int64_t, int)
    M(14, asUInt8, std::uint8_t, unsigned) M(15, asUInt16, std::uint16_t, unsigned) M(16, asUInt32, std::uint32_t, unsigned long) M(17, asUInt64, std::uint64_t, unsigned)
    M(18, asFloat, float, double) M(19, asDouble, double, float) M(20, asString, std::string, std::string_view) M(21, asStringView, std::string_view, std::string)
    M(22, asBool, bool, int)
    using Keys = std::array<std::string_view, 1>;
    using BadKeys = std::array<std::string, 1>;
    M(23, mapKeys, Keys, BadKeys)
    Ret<B, 24, bool, int> contains(std::string_view) const requires (B != 124) { return {}; }
    M(25, arraySize, std::size_t, int)
    using Blob = std::span<const std::byte>;
    using BadBlob = std::span<const char>;
    M(26, asBlob, Blob, BadBlob)
#undef M
};
struct NotAValue {};
template<int B, int Sub = 0> struct ReaderOf : ValueOf<B> {
    ReaderOf() = default;
    explicit ReaderOf(std::vector<std::uint8_t>) {}
    // 27: what a lookup yields is not a value; 28: what an index yields is not a value
    using ByKey = std::conditional_t<B == 27, NotAValue, ReaderOf<Sub>>;
    using ByIndex = std::conditional_t<B == 28, NotAValue, ReaderOf<Sub>>;
    ByKey operator[](std::string_view) const requires (B != 127) { return {}; }
    ByIndex operator[](std::size_t) const requires (B != 128) { return {}; }
};

// ------------------------------------------------------------------ writer
template<int B> struct RootOf {
    RootOf() requires (B != 145) = default;
    explicit RootOf(int) {}
    Ret<B, 45, zerialize::ZBuffer, std::vector<std::uint8_t>> finish() requires (B != 146) { return {}; }
};
template<int B> struct WriterOf {
    struct Other {};
    explicit WriterOf(std::conditional_t<B == 46, Other, RootOf<B>>&) {}
#define W(k, name, arg) Ret<B, k, void, int> name(arg) requires (B != 100 + k) { return some<Ret<B, k, void, int>>(); }
#define W0(k, name) Ret<B, k, void, int> name() requires (B != 100 + k) { return some<Ret<B, k, void, int>>(); }
    W0(31, null) W(32, boolean, bool) W(33, int64, std::int64_t) W(34, uint64, std::uint64_t) W(35, double_, double) W(36, string, std::string_view)
    W(37, binary, std::span<const std::byte>) W(38, key, std::string_view) W(39, begin_array, std::size_t) W0(40, end_array)
    W(41, begin_map, std::size_t) W0(42, end_map)
#undef W
#undef W0
};

// ------------------------------------------------------------------ protocol
struct Named { static inline constexpr const char* Name = "Mock"; };
struct OddlyNamed { static inline constexpr int Name = 7; };
struct Unnamed {};
template<class T> struct HasReader { using Deserializer = T; };
template<class T> struct HasRoot { using RootSerializer = T; };
template<class T> struct HasWriter { using Serializer = T; };
template<int> struct None {};
template<int B> struct ProtocolOf
    : std::conditional_t<B == 50, OddlyNamed, std::conditional_t<B == 150, Unnamed, Named>>
    , std::conditional_t<B == 151, None<1>, HasReader<ReaderOf<B>>>
    , std::conditional_t<B == 152, None<2>, HasRoot<RootOf<B>>>
    , std::conditional_t<B == 153, None<3>, HasWriter<WriterOf<B>>> {};
} // namespace mock
