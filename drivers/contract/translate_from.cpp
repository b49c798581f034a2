// translate<P>(source) with a source that is not a full reader
#include "mock.hpp"
#ifndef SUBBROKEN
#define SUBBROKEN 0
#endif
void use() { auto d = zerialize::translate<mock::ProtocolOf<0>>(mock::ReaderOf<BROKEN, SUBBROKEN>()); (void)d; }
