// single violations; CASE selects one, its sign whether the correct twin or the violation is built
#include "mock.hpp"
#include <list>
using namespace zerialize;
using P = mock::ProtocolOf<0>;
struct Empty {};
void use(ZBuffer& a, ZBuffer& b, mock::ReaderOf<0>& r) {
    (void)a, (void)b, (void)r;
#if CASE == 1
    auto x = serialize<P>(zmap<"a", "b">(1, 2));
#elif CASE == -1
    auto x = serialize<P>(zmap<"a", "b">(1));
#elif CASE == 2
    auto x = serialize<P>(zmap<"a">(1));
#elif CASE == -2
    auto x = serialize<P>(zmap<"a">(1, 2));
#elif CASE == 3
    auto x = serialize<P>(zmap<"a">(1));
#elif CASE == -3
    auto x = serialize<P>(zmap<"a">());
#elif CASE == 4
    auto x = serialize<P>(zmap<"a", "b", "c">(1, "x", nullptr));
#elif CASE == -4
    auto x = serialize<P>(zmap<"a", "b">(1, "x", nullptr));
#elif CASE == 5
    auto x = serialize<P>(zvec(1, zmap<"a", "b">(1, 2)));
#elif CASE == -5
    auto x = serialize<P>(zvec(1, zmap<"a">(1, 2)));
#elif CASE == 6
    auto x = serialize<P>(zmap<"m">(zmap<"a", "b">(1, 2)));
#elif CASE == -6
    auto x = serialize<P>(zmap<"m">(zmap<"a", "b", "c">(1, 2)));
#elif CASE == 7
    auto x = serialize<P>(zmap<"a">(zvec(1, 2)));
#elif CASE == -7
    auto x = serialize<P>(zmap<"a">(zvec(1, 2), zvec(1, 2)));
#elif CASE == 10
    ZBuffer c(std::move(a));
#elif CASE == -10
    ZBuffer c(a);
#elif CASE == 11
    b = std::move(a);
#elif CASE == -11
    b = a;
#elif CASE == 12
    std::vector<ZBuffer> v; v.push_back(std::move(a));
#elif CASE == -12
    std::vector<ZBuffer> v; v.push_back(a);
#elif CASE == 13
    const ZBuffer& k = a; const ZBuffer& c = k; (void)c;
#elif CASE == -13
    const ZBuffer& k = a; ZBuffer c = k; (void)c;
#elif CASE == 14
    auto f = [](ZBuffer x) { return x.size(); }; (void)f(std::move(a));
#elif CASE == -14
    auto f = [](ZBuffer x) { return x.size(); }; (void)f(a);
#elif CASE == 15
    const ZBuffer& k = a; b = ZBuffer(); (void)k;
#elif CASE == -15
    const ZBuffer& k = a; b = k;
#elif CASE == 20
    auto x = translate<P>(r);
#elif CASE == -20
    auto x = translate<P>(5);
#elif CASE == 21
    auto x = translate<P>(r);
#elif CASE == -21
    auto x = translate<P>(std::string("text"));
#elif CASE == 22
    auto x = translate<P>(r);
#elif CASE == -22
    auto x = translate<P>(a);
#elif CASE == 23
    auto x = translate<P>(r);
#elif CASE == -23
    auto x = translate<P>(std::vector<std::uint8_t>());
#elif CASE == 24
    auto x = translate<P>(r);
#elif CASE == -24
    auto x = translate<Empty>(r);
#elif CASE == 25
    auto x = serialize<P>(1);
#elif CASE == -25
    auto x = serialize<Empty>(1);
#elif CASE == 26
    auto x = serialize<P>(1);
#elif CASE == -26
    auto x = serialize<int>(1);
#elif CASE == 27
    auto x = serialize<P>(zvec(1));
#elif CASE == -27
    auto x = serialize<mock::WriterOf<0>>(zvec(1));
#elif CASE == 28
    auto x = serialize<P>(std::vector<int>());
#elif CASE == -28
    auto x = serialize<P>(std::vector<Empty>());
#elif CASE == 29
    auto x = serialize<P>(zvec("s"));
#elif CASE == -29
    auto x = serialize<P>(zvec(Empty()));
#else
#error no such case
#endif
}
