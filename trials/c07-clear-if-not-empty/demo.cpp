#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <adt/Vector.h>
#include <malloc.h>
int main() { for (int i = 0; i < 200; ++i) { eni::Vector<int> v; v.reserve(100000); } CHECK(mallinfo2().uordblks + mallinfo2().hblkhd < 10000000); }