// serialize<P>() with a type that is not a full protocol
#include "mock.hpp"
void use() { auto b = zerialize::serialize<mock::ProtocolOf<BROKEN>>(); (void)b; }
