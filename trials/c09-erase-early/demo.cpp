#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <string>
struct Mod { unsigned operator()(unsigned k) const { return k % 1000; } };
typedef eni::HashTable<unsigned, unsigned, Mod> Table;
static void put(Table& t, unsigned k, unsigned v) { bool e = false; Table::entry_type* n = t.insert(k, e); n->setValue(v); }
static int count(Table& t) { int n = 0; for (Table::iterator i = t.begin(); i != t.end(); ++i) ++n; return n; }
int main() { Table t(64); put(t, 5, 0); put(t, 6, 0); put(t, 7, 0); put(t, 8, 0); t.erase(5); t.erase(6); CHECK(t.numOfTombstones() == 2); t.erase(8); t.erase(7); put(t, 20, 0); put(t, 21, 0); t.erase(21); t.erase(20);
  unsigned n = 0; for (unsigned i = 0; i < t.numOfBuckets(); ++i) n += t.bucket(i).entry == Table::Tombstone(); CHECK(n == t.numOfTombstones());
  put(t, 30, 0); put(t, 31, 0); t.erase(30); put(t, 31, 0); put(t, 32, 0); t.erase(31); put(t, 40, 0); t.erase(32); put(t, 41, 0); t.erase(40); t.erase(41);
  n = 0; for (unsigned i = 0; i < t.numOfBuckets(); ++i) n += t.bucket(i).entry == Table::Tombstone(); CHECK(n == t.numOfTombstones());
  put(t, 50, 0); put(t, 52, 0); put(t, 53, 0); put(t, 54, 0); t.erase(52); t.erase(53); t.erase(54); put(t, 51, 0); t.erase(50); put(t, 52, 0); t.erase(51); t.erase(52); 
  put(t, 60, 0); put(t, 61, 0); t.erase(60); t.erase(61); put(t, 60, 0); put(t, 61, 0); put(t, 62, 0); t.erase(60); t.erase(62); t.erase(61);
  put(t, 10, 0); put(t, 12, 0); put(t, 11, 0); t.erase(10); t.erase(11); t.erase(12);
  n = 0; for (unsigned i = 0; i < t.numOfBuckets(); ++i) n += t.bucket(i).entry == Table::Tombstone(); CHECK(n == t.numOfTombstones()); }