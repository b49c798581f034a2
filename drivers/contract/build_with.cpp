// running a builder on something that is not a full writer
#include "mock.hpp"
void use(mock::WriterOf<BROKEN>& w) { zerialize::zvec(1)(w); }
