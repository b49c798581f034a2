#include <zerialize/protocols/flex.hpp>
using P = zerialize::Flex;
#include "own.hpp"
