#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <string>
struct Mod { unsigned operator()(unsigned k) const { return k % 1000; } };
typedef eni::HashTable<unsigned, unsigned, Mod> Table;
static void put(Table& t, unsigned k, unsigned v) { bool e = false; Table::entry_type* n = t.insert(k, e); n->setValue(v); }
static int count(Table& t) { int n = 0; for (Table::iterator i = t.begin(); i != t.end(); ++i) ++n; return n; }
struct Top { unsigned operator()(unsigned k) const { return 0x80000000u + k % 5; } };
typedef eni::HashTable<unsigned, unsigned, Top> Tops;
int main() { Tops t(3); for (unsigned k = 0; k < 40; ++k) { bool e; t.insert(k, e); } for (unsigned k = 0; k < 40; ++k) CHECK(t.count(k)); }