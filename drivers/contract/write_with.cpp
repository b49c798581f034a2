// writing a value through something that is not a full writer
#include "mock.hpp"
void use(mock::WriterOf<BROKEN>& w) { using zerialize::serialize; serialize(1, w); }
