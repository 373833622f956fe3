#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <adt/Vector.h>
int main() { eni::Vector<int> v; for (int i = 0; i < 9; ++i) v.push_back(i); CHECK(v.end() - v.begin() == 9); CHECK(v.begin() - v.end() == -9); }