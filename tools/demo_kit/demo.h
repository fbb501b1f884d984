// Small helpers for the demonstrations.
#include <cstdio>
#include <cstdlib>
#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
