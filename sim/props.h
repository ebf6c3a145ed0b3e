#pragma once
#include "drv.h"
#include <cmath>
#include <algorithm>
#define PROPS(X) X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14) X(C15) X(C16) X(C17) X(C18) X(C19) X(C23)
#define X(id) void prop##id();
PROPS(X)
#undef X
