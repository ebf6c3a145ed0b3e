// Calls of a misbehaving importer.
#pragma once
#include "drv.h"

Op anyCall(Instance& in, Track& t);                      // well-formed, whether or not it is allowed now
bool malformed(Instance& in, Track& t, Op* out);         // bad arguments in a mode in which the call itself is allowed
