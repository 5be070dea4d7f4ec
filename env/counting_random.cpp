// Random identifiers are distinct numbers, some of them already taken: which ones does not matter, only that they are unused.
#include <libstuff/SRandom.h>
uint64_t SRandom::rand64() { static uint64_t n = 1000; return ++n; }
