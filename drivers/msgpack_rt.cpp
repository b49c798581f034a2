#include <zerialize/protocols/msgpack.hpp>
using P = zerialize::MsgPack;
#include "rt.hpp"
