// jsoncons is not installed here: only the names cbor.hpp uses are declared.  The checks
// analyse the hand-written reader; nothing of jsoncons is called by it.
#pragma once
