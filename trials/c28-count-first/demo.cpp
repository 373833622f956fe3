#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <string>
struct Mod { unsigned operator()(unsigned k) const { return k % 1000; } };
typedef eni::HashTable<unsigned, unsigned, Mod> Table;
static void put(Table& t, unsigned k, unsigned v) { bool e = false; Table::entry_type* n = t.insert(k, e); n->setValue(v); }
static int count(Table& t) { int n = 0; for (Table::iterator i = t.begin(); i != t.end(); ++i) ++n; return n; }
#include <dlfcn.h>
static bool fail; extern "C" void* __libc_malloc(size_t); extern "C" void* malloc(size_t n) { return fail ? 0 : __libc_malloc(n); }
int main() { Table t(64); put(t, 1, 1); bool x = false, e; fail = true; try { t.insert(2, e); } catch (std::bad_alloc&) { x = true; } fail = false; CHECK(x); CHECK(t.numOfEntries() == 1); CHECK(count(t) == 1); }