#include <vector>
#include <string>
#include <zerialize/protocols/json.hpp>
using P = zerialize::JSON;
#include "rt.hpp"
