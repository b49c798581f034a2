// every built-in protocol keeps the protocol contract with exact accessor types
#include PROTO_HEADER
#include <zerialize/zerialize.hpp>
#include <type_traits>
using P = zerialize::PROTO;
using namespace zerialize;
template<class A, class B> inline constexpr bool same = std::is_same_v<A, B>;
static_assert(Protocol<P>, "not a Protocol");
static_assert(Reader<P::Deserializer>, "the deserializer is not a Reader");
static_assert(RootSerializer<P::RootSerializer>, "the root serializer is not a RootSerializer");
static_assert(SerializerFor<P::Serializer, P::RootSerializer>, "the serializer does not fit its root");
static_assert(std::is_convertible_v<decltype(P::Name), const char*>, "no name");
template<class V> void value() {
    using C = const V&;
#define EXACT(e, ...) static_assert(same<decltype(std::declval<C>().e), __VA_ARGS__>, #e)
    EXACT(isNull(), bool); EXACT(isInt(), bool); EXACT(isUInt(), bool); EXACT(isFloat(), bool); EXACT(isString(), bool);
    EXACT(isBlob(), bool); EXACT(isBool(), bool); EXACT(isMap(), bool); EXACT(isArray(), bool);
    EXACT(asInt8(), std::int8_t); EXACT(asInt16(), std::int16_t); EXACT(asInt32(), std::int32_t); EXACT(asInt64(), std::int64_t);
    EXACT(asUInt8(), std::uint8_t); EXACT(asUInt16(), std::uint16_t); EXACT(asUInt32(), std::uint32_t); EXACT(asUInt64(), std::uint64_t);
    EXACT(asFloat(), float); EXACT(asDouble(), double); EXACT(asBool(), bool);
    EXACT(asString(), std::string); EXACT(asStringView(), std::string_view); EXACT(arraySize(), std::size_t);
    EXACT(contains(std::string_view()), bool);
    static_assert(same<std::remove_cvref_t<decltype(std::declval<C>().asBlob())>, std::span<const std::byte>>, "asBlob()");
    using K = decltype(std::declval<C>().mapKeys());
    static_assert(std::ranges::forward_range<K> && same<std::remove_cvref_t<std::ranges::range_value_t<K>>, std::string_view>, "mapKeys()");
}
template<class V> void reader() {
    value<V>();
    using E = std::remove_cvref_t<decltype(std::declval<const V&>()[std::size_t(0)])>;
    using F = std::remove_cvref_t<decltype(std::declval<const V&>()[std::string_view()])>;
    value<E>();
    value<F>();
    value<std::remove_cvref_t<decltype(std::declval<const E&>()[std::size_t(0)])>>();
    value<std::remove_cvref_t<decltype(std::declval<const E&>()[std::string_view()])>>();
}
template void reader<P::Deserializer>();
template<class W> void writer() {
#define VOID(e) static_assert(std::is_void_v<decltype(std::declval<W&>().e)>, #e)
    VOID(null()); VOID(boolean(true)); VOID(int64(std::int64_t())); VOID(uint64(std::uint64_t())); VOID(double_(0.0)); VOID(string(std::string_view()));
    VOID(binary(std::span<const std::byte>())); VOID(key(std::string_view())); VOID(begin_array(std::size_t())); VOID(end_array()); VOID(begin_map(std::size_t())); VOID(end_map());
    static_assert(std::is_constructible_v<W, P::RootSerializer&>, "not constructible from its root");
}
template void writer<P::Serializer>();
static_assert(std::is_default_constructible_v<P::RootSerializer>, "root not default-constructible");
static_assert(same<decltype(std::declval<P::RootSerializer&>().finish()), ZBuffer>, "finish()");
static_assert(std::is_constructible_v<P::Deserializer, std::span<const std::uint8_t>>, "reader over a span");
static_assert(!std::is_copy_constructible_v<ZBuffer> && !std::is_copy_assignable_v<ZBuffer> && std::is_nothrow_move_constructible_v<ZBuffer> && std::is_nothrow_move_assignable_v<ZBuffer>, "ZBuffer");
void use(P::Deserializer& d) {
    auto a = serialize<P>(zmap<"a", "b">(1, zvec("x", nullptr)));
    auto b = serialize<P>();
    auto c = translate<P>(d);
    auto e = translate<P>(d["k"]);
    (void)a, (void)b, (void)c, (void)e;
}
