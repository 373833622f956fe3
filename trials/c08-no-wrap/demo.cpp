#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <string>
struct Mod { unsigned operator()(unsigned k) const { return k % 1000; } };
typedef eni::HashTable<unsigned, unsigned, Mod> Table;
static void put(Table& t, unsigned k, unsigned v) { bool e = false; Table::entry_type* n = t.insert(k, e); n->setValue(v); }
static int count(Table& t) { int n = 0; for (Table::iterator i = t.begin(); i != t.end(); ++i) ++n; return n; }
int main() { Table t(16); unsigned n = t.numOfBuckets(); put(t, n - 1, 1); put(t, 1000 * 1 + n - 1, 2); put(t, 2000 + n - 1, 3); CHECK(t.count(n - 1)); CHECK(t.count(1000 + n - 1)); CHECK(t.find(2000 + n - 1) != t.end()); }