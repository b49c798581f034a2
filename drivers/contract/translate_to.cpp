// translate<P>(reader) with a target that is not a full protocol
#include "mock.hpp"
void use() { auto d = zerialize::translate<mock::ProtocolOf<BROKEN>>(mock::ReaderOf<0>()); (void)d; }
