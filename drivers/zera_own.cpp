#include <zerialize/protocols/zera.hpp>
using P = zerialize::Zera;
#include "own.hpp"
