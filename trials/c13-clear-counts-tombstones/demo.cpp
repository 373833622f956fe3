#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <string>
struct Mod { unsigned operator()(unsigned k) const { return k % 1000; } };
typedef eni::HashTable<unsigned, unsigned, Mod> Table;
static void put(Table& t, unsigned k, unsigned v) { bool e = false; Table::entry_type* n = t.insert(k, e); n->setValue(v); }
static int count(Table& t) { int n = 0; for (Table::iterator i = t.begin(); i != t.end(); ++i) ++n; return n; }

#include <set>
static std::set<const void*> alive; static int fuse = -1;
struct Failed {};
struct T { std::string s; T() { alive.insert(this); } T(int i) : s(std::to_string(i)) { alive.insert(this); }
  T(const T& o) : s(o.s) { CHECK(alive.count(&o)); if (fuse >= 0 && fuse-- == 0) throw Failed(); CHECK(alive.insert(this).second); }
  T& operator=(const T& o) { CHECK(alive.count(this) && alive.count(&o)); s = o.s; return *this; }
  ~T() { CHECK(alive.erase(this)); } };
int main() { { eni::HashTable<unsigned, T, Mod> t(64); for (unsigned k = 0; k < 20; ++k) { bool e; t.insert(k, e)->setValue(T(k)); } for (unsigned k = 0; k < 3; ++k) t.erase(k); } CHECK(alive.empty()); }