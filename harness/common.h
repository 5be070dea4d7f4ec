#pragma once
#include <libstuff/libstuff.h>
#include <cstring>
static inline void quiet() { SLogLevel(0); }
