//   --mode contract   accesses outside the contract, and the exceptions they throw
//   --mode hasher     the string hash functions against independent ones
//   --mode iterator   PointerIterator and HashIterator against indices
#include "hashref.h"
#include "tracked.h"
#include <adt/HashTable.h>
#include <adt/PointerIterator.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <algorithm>
#include <clocale>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>
#include <numeric>

using namespace vf;
using namespace eni;
using namespace eni::internal;

static void say(const std::string& s) { trace() += s; trace() += ' '; }

// -- exceptions ---------------------------------------------------------------
template<class E, class Base> static void exception_is(const char* msg) {
  bool caught = false;
  try { throw E(); }
  catch (const Base& e) { caught = true; VF_CHECK(!strcmp(e.what(), msg), "what() is '" << e.what() << "', expected '" << msg << "'"); }
  VF_CHECK(caught, msg);
  caught = false;
  try { throw E(); }
  catch (const std::exception& e) { caught = true; std::string w = e.what(); E copy(static_cast<const E&>(e)); VF_CHECK(w == msg && !strcmp(copy.what(), msg), "what() of a copy"); }
  VF_CHECK(caught, msg);
}
template<DiagID ID> static void exceptions(const char* msg) {
  exception_is<Exception<ID>, std::exception>(msg);
  exception_is<BadAlloc<ID>, std::bad_alloc>(msg);
  exception_is<LogicError<ID>, std::logic_error>(msg);
  exception_is<LengthError<ID>, std::length_error>(msg);
  exception_is<OutOfRange<ID>, std::out_of_range>(msg);
}

struct IdHash { uint32_t operator()(int k) const { return (uint32_t)k % 5; } };
typedef HashTable<int, Tracked, IdHash> Table;
typedef StringMap<Tracked> Map;

// E with message msg is thrown by f
template<class E, class F> static void throws(const char* what, const char* msg, F f) {
  bool threw = false;
  try { f(); }
  catch (const E& e) { threw = true; VF_CHECK(!strcmp(e.what(), msg), what << " threw '" << e.what() << "', expected '" << msg << "'"); }
  catch (const std::exception& e) { VF_CHECK(false, what << " threw another exception: " << e.what()); }
  VF_CHECK(threw, what << " did not throw");
  stats().add("refused");
  stats().add(std::string("refused ") + what);
}
static const char NOWHERE[] = "invalid iterator: iterator points to nowhere";
static const char NOKEY[] = "invalid access: key does not exist";
static const char ASSIGNED[] = "invalid delegation: value has been assigned";
static const char INDEX[] = "invalid access: index out of bound";

template<class It> static void end_of(It it, const char* what) {
  typedef LogicError<InvalidIteratorEmpty> E;
  throws<E>(what, NOWHERE, [&] { it->key(); });
  throws<E>(what, NOWHERE, [&] { (*it).key(); });
  const It c(it);
  throws<E>(what, NOWHERE, [&] { c->key(); });
  throws<E>(what, NOWHERE, [&] { (*c).key(); });
}

static void contract(Rng& r, uint64_t c) {
  if (c % 16 == 0) {
    exceptions<Unknown>("unknown");
    exceptions<Unimplemented>("not implemented");
    exceptions<NoMemory>("no memory");
    exceptions<InvalidDelegateAssigned>(ASSIGNED);
    exceptions<InvalidIteratorEmpty>(NOWHERE);
    exceptions<InvalidStringMapKey>(NOKEY);
    exceptions<InvalidVectorIndex>(INDEX);
    exceptions<InvalidVectorSize>("invalid reserve: exceed maximum size");
    throws<LogicError<Unimplemented> >("an unspecified hasher", "not implemented", [&] { StringHasher<99> h; h("x"); });
    throws<std::logic_error>("an unspecified hasher", "not implemented", [&] { StringHasher<12> h; h(""); });
  }
  // tables in some state: positions past the end
  {
    Table t(r.below(20));
    std::map<int, long> m;
    for (uint64_t n = r.below(60); n; --n) {
      int k = (int)r.below(30);
      if (r.chance(3, 4)) { bool ex; t.insert(k, ex)->value() = Tracked(n); m[k] = (long)n; }
      else { t.erase(k); m.erase(k); }
    }
    const Table& ct = t;
    int absent = 100 + (int)r.below(50);
    end_of(t.end(), "end()");
    end_of(ct.end(), "end() const");
    end_of(t.find(absent), "find(absent)");
    end_of(ct.find(absent), "find(absent) const");
    end_of(t.begin(absent), "begin(absent)");
    end_of(ct.begin(absent), "begin(absent) const");
    end_of(t.end(absent), "end(key)");
    end_of(Table::iterator(), "iterator()");
    end_of(Table::const_iterator(), "const_iterator()");
    end_of(Table::chain_iterator(), "chain_iterator()");
    typedef LogicError<InvalidIteratorEmpty> E;
    throws<E>("++end()", NOWHERE, [&] { Table::iterator it = t.end(); ++it; });
    throws<E>("++end()", NOWHERE, [&] { Table::iterator it = t.find(absent); it++; });
    throws<E>("++end() const", NOWHERE, [&] { Table::const_iterator it = ct.end(); ++it; });
    Table::iterator it = t.begin();
    while (it != t.end()) ++it;
    throws<E>("++ past the last", NOWHERE, [&] { ++it; });
    VF_CHECK(it == t.end(), "a refused step moved the iterator");
    VF_CHECK(t.numOfEntries() == m.size(), "a refused access changed the table");
    for (std::map<int, long>::iterator i = m.begin(); i != m.end(); ++i)
      VF_CHECK(t.find(i->first)->value().get() == i->second, "a refused access changed the table");
    stats().state(mix(mix(m.size(), t.numOfBuckets()), t.numOfTombstones()));
  }
  {
    Map t(r.below(20));
    std::map<std::string, long> m;
    for (uint64_t n = r.below(40); n; --n) {
      std::string k = std::string(r.below(3), 'k') + std::to_string(r.below(20));
      if (r.chance(3, 4)) { t[k] = Tracked(n); m[k] = (long)n; } else { t.erase(k); m.erase(k); }
    }
    const Map& ct = t;
    std::string present = m.empty() ? "" : m.begin()->first;
    std::string absents[] = {present + std::string(1, '\0'), std::string("\0", 1) + present, "absent", present + " ", std::string(70000, 'z')};
    const std::string& k = absents[r.below(5)];
    typedef OutOfRange<InvalidStringMapKey> E;
    throws<E>("at(absent)", NOKEY, [&] { t.at(k); });
    throws<E>("at(absent) const", NOKEY, [&] { ct.at(k); });
    throws<E>("const map[absent]", NOKEY, [&] { ct[k]; });
    throws<std::out_of_range>("at(absent)", NOKEY, [&] { t.at(k) = Tracked(5); });
    end_of(t.end(), "map.end()");
    end_of(ct.find(k), "map.find(absent)");
    VF_CHECK(t.size() == m.size(), "a refused access changed the size from " << m.size() << " to " << t.size());
    for (std::map<std::string, long>::iterator i = m.begin(); i != m.end(); ++i) VF_CHECK(ct[i->first].get() == i->second && t.at(i->first).get() == i->second, "a refused access changed a value");
    stats().state(mix(hash_str(k), m.size()));
  }
  // JSON
  {
    json::Array a;
    json::Object o;
    size_t n = r.below(6);
    for (size_t i = 0; i < n; ++i) { a.push_back(json::Value((int)i)); o["k" + std::to_string(i)] = json::Value((int)i); }
    const json::Array& ca = a;
    const json::Object& co = o;
    const json::Value va(a), vo(o);
    static const int far[] = {0, 1, 100, INT32_MAX};
    int bad = far[r.below(4)];
    bad = bad == INT32_MAX ? bad : (int)n + bad;
    int neg = r.chance(1, 2) ? -1 : r.chance(1, 2) ? INT32_MIN : -(int)r.below(1000) - 1;
    typedef OutOfRange<InvalidVectorIndex> E;
    throws<E>("array[past]", INDEX, [&] { ca[bad]; });
    throws<E>("array[negative]", INDEX, [&] { ca[neg]; });
    throws<E>("array.at(past)", INDEX, [&] { a.at(bad); });
    throws<E>("value[past]", INDEX, [&] { va[bad]; });
    throws<E>("value[negative]", INDEX, [&] { va[neg]; });
    VF_CHECK(vo[std::string("absent")].isUndefined() && vo[""].isUndefined(), "value[absent] is something");
    throws<OutOfRange<InvalidStringMapKey> >("object[absent]", NOKEY, [&] { co["absent"]; });
    throws<OutOfRange<InvalidStringMapKey> >("object.at(absent)", NOKEY, [&] { o.at("absent"); });
    VF_CHECK(a.size() == n && o.size() == n && va.toArray().size() == n && vo.toObject().size() == n, "a refused access changed a container");
    json::Value v[] = {json::Value(true), json::Value(7), json::Value("s"), va, vo};
    eni::s256 i(1);
    json::Array da;
    json::Object dob;
    for (int k = 0; k < 5; ++k) {
      json::Type t = v[k].type();
      typedef LogicError<InvalidDelegateAssigned> D;
      throws<D>("delegate(integer)", ASSIGNED, [&] { v[k].delegate(i); });
      throws<D>("delegate(array)", ASSIGNED, [&] { v[k].delegate(da); });
      throws<D>("delegate(object)", ASSIGNED, [&] { v[k].delegate(dob); });
      VF_CHECK(v[k].type() == t, "a refused delegation changed the type");
    }
    VF_CHECK(v[0].toBoolean() && v[1].toInteger() == 7 && v[2].toString() == "s" && v[3].toArray().size() == n && v[4].toObject().size() == n, "a refused delegation changed the value");
    stats().state(mix(mix(n, (uint64_t)bad), (uint64_t)neg));
  }
  VF_CHECK(Tracked::live().empty(), "values were not destroyed");
}

// -- hash functions -----------------------------------------------------------
template<uint32_t W> static uint32_t lib(const std::string& s) { StringHasher<W> h; return h(s); }
typedef uint32_t (*fn)(const std::string&);
static const fn LIB[] = {lib<RS>, lib<JS>, lib<PJW>, lib<ELF>, lib<BKDR>, lib<SDBM>, lib<DJB>, lib<DEK>, lib<BP>, lib<FNV>, lib<AP>, lib<ES>};
static const char* NAME[] = {"RS", "JS", "PJW", "ELF", "BKDR", "SDBM", "DJB", "DEK", "BP", "FNV", "AP", "ES"};

static void hasher(Rng& r, uint64_t c) {
  if (const char* l = getenv("VERIF_LOCALE"))   // which takes other bytes for letters
    if (!setlocale(LC_ALL, l)) exit(9);
  std::string s;
  size_t n = r.chance(1, 300) ? 65500 + r.below(80000) : r.chance(1, 8) ? r.below(5000) : r.below(60);
  int kind = (int)r.below(5);
  static const char es[] = "..-_aAbBzZyY019 /,@[`{:\xe1";
  for (size_t i = 0; i < n; ++i)
    s += kind == 0 ? (char)r.below(256) : kind == 1 ? (char)(32 + r.below(95)) : kind == 2 ? es[r.below(sizeof es - 1)] : kind == 3 ? (char)(0x80 + r.below(128)) : (r.chance(1, 3) ? '.' : '\0');
  if (r.chance(1, 4)) {   // the classes of characters in blocks, whole or in part, in any order
    std::string block[4] = {"abcdefghijklmnopqrstuvwxyz", "0123456789", "................", "_-_"};
    s.clear();
    for (int i = 3; i > 0; --i) std::swap(block[i], block[r.below(i + 1)]);
    for (int i = 0; i < 4; ++i) {
      if (r.chance(1, 4)) for (size_t k = 0; k < block[i].size(); ++k) block[i][k] = (char)toupper(block[i][k]);
      s += r.chance(1, 2) ? block[i] : block[i].substr(r.below(block[i].size()), r.below(5));
    }
  }
  if (c < 400) { s.clear(); if (c >= 1) s = std::string(1, (char)c); if (c >= 257) s = std::string(c - 257, '.'); }
  for (int w = 0; w < 12; ++w) {
    uint32_t got = LIB[w](s), want = ref(w, s);
    uint32_t mask = w == ES ? ~(1u << 26) : ~0u;
    VF_CHECK((got & mask) == (want & mask), NAME[w] << " of '" << esc(s).substr(0, 200) << "' (" << s.size() << " bytes) is " << got << ", expected " << want);
    std::string copy(s.data(), s.size());
    copy.reserve(s.size() + 100);
    VF_CHECK(LIB[w](copy) == got && LIB[w](s) == got, NAME[w] << " is not a function of the text");
    stats().add("hashes");
    stats().state(mix(got, w));
  }
  // bit 26 is documented for one character and set for another
  bool minus = s.find('-') != std::string::npos, under = s.find('_') != std::string::npos;
  if (minus == under)
    VF_CHECK(((LIB[ES](s) >> 26 & 1) == 1) == minus, "bit 26 of the ES hash of '" << esc(s).substr(0, 200) << "'");
  // the filter: a substring is never excluded
  uint32_t hs = LIB[ES](s);
  for (int k = 0; k < 10; ++k) {
    size_t at = r.below(s.size() + 1);
    std::string sub = s.substr(at, r.below(s.size() - at + 1));
    VF_CHECK(StringHasher<ES>::may_include(LIB[ES](sub), hs), "may_include excludes '" << esc(sub) << "' from '" << esc(s) << "'");
    stats().add("substrings");
  }
  VF_CHECK(StringHasher<ES>::may_include(LIB[ES](""), hs) && StringHasher<ES>::may_include(hs, hs), "may_include of nothing and of all");
  // and what has a letter, a digit or dots that the string lacks is excluded
  std::string other = s.substr(0, r.below(s.size() + 1));
  char extra = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789."[r.below(63)];
  other.insert(r.below(other.size() + 1), 1, extra);
  uint32_t ho = LIB[ES](other);
  bool letters = true;
  for (int bit = 0; bit < 28; ++bit) if (bit != 26 && (ho >> bit & 1) && !(hs >> bit & 1)) letters = false;
  if (!letters || (ho >> 28) > (hs >> 28)) {
    VF_CHECK(!StringHasher<ES>::may_include(ho, hs), "may_include does not exclude '" << esc(other) << "' from '" << esc(s) << "'");
    stats().add("excluded");
  }
  StringCompare<std::string> eq;
  StringCompare<const char*> eqc;
  std::string t = s;
  VF_CHECK(eq(s, t), "StringCompare");
  if (!t.empty()) { t[r.below(t.size())] ^= 1; VF_CHECK(!eq(s, t), "StringCompare"); }
  std::string z = s.c_str(), y = z + "x";
  VF_CHECK(eqc(z.c_str(), std::string(z).c_str()) && !eqc(z.c_str(), y.c_str()), "StringCompare<const char*>");
}

// -- iterators ----------------------------------------------------------------
struct Item { long a; char pad[20]; };
static bool operator<(const Item& x, const Item& y) { return x.a < y.a; }
static long get(const Item& i) { return i.a; }
static long get(const long& i) { return i; }
static long get(const unsigned char& i) { return i; }
static void put(Item& i, long v) { i.a = v; }
static void put(long& i, long v) { i = v; }
static void put(unsigned char& i, long v) { i = (unsigned char)v; }

template<class T> static void pointers(Rng& r) {
  size_t n = 1 + (r.chance(1, 100) ? 65000 + r.below(100000) : r.below(60));
  std::vector<T> mem(n);
  for (size_t i = 0; i < n; ++i) put(mem[i], (long)((i * 37 + 11) % 251));
  typedef PointerIterator<T> It;
  typedef PointerIterator<const T> CIt;
  T* base = &mem[0];
  It it(base);
  CIt ci((const T*)base);
  size_t p = 0;
  for (int s = 0; s < 60; ++s) {
    size_t q = r.below(n + 1);
    It other(base + q);
    const It cother(other), cit(it);
    VF_CHECK((it == other) == (p == q) && (it != other) == (p != q), "equality at " << p << " and " << q);
    VF_CHECK((it < other) == (p < q) && (it > other) == (p > q) && (it <= other) == (p <= q) && (it >= other) == (p >= q), "order at " << p << " and " << q);
    VF_CHECK((cit < cother) == (p < q) && (cit >= cother) == (p >= q) && (cit == cother) == (p == q), "order of const iterators");
    VF_CHECK(it - other == (ptrdiff_t)p - (ptrdiff_t)q, "distance from " << q << " to " << p << " is " << (it - other));
    VF_CHECK((p < q) + (p > q) + (p == q) == (it < other) + (it > other) + (it == other), "trichotomy");
    if (p < n) {
      VF_CHECK(&*it == base + p && it.operator->() == base + p && &*cit == base + p && cit.operator->() == base + p && &*ci == base + p, "the element at " << p);
      VF_CHECK(&it[0] == base + p && &it[n - 1 - p] == base + n - 1, "it[k]");
    }
    switch (r.below(11)) {
      case 0: if (p < n) { It& x = ++it; VF_CHECK(&x == &it, "++ gives itself"); ++ci; ++p; } break;
      case 1: if (p > 0) { It& x = --it; VF_CHECK(&x == &it, "-- gives itself"); --ci; --p; } break;
      case 2: if (p < n) { It old = it++; ci++; VF_CHECK(old - it == -1 && &*old == base + p, "it++"); ++p; } break;
      case 3: if (p > 0) { It old = it--; ci--; VF_CHECK(old - it == 1, "it--"); --p; } break;
      case 4: { size_t k = r.below(n - p + 1); It& x = (it += k); VF_CHECK(&x == &it, "+="); ci += k; p += k; break; }
      case 5: { size_t k = r.below(p + 1); It& x = (it -= k); VF_CHECK(&x == &it, "-="); ci -= k; p -= k; break; }
      case 6: { size_t k = r.below(n - p + 1); It x = it + k; VF_CHECK(x - it == (ptrdiff_t)k && it - x == -(ptrdiff_t)k, "it + k"); VF_CHECK((x - k) == it, "it + k - k"); it = x; ci = ci + k; p += k; break; }
      case 7: { size_t k = r.below(p + 1); It x = it - k; VF_CHECK(it - x == (ptrdiff_t)k, "it - k"); VF_CHECK((x + k) == it, "it - k + k"); it = x; ci = ci - k; p -= k; break; }
      case 8: { It x(base); It& y = (x = it); VF_CHECK(&y == &x && x == it, "="); if (p < n) { ++x; VF_CHECK(x != it, "a copy moves its source"); } break; }
      case 9: if (p < n) { put(*it, (long)r.below(200)); VF_CHECK(get(*ci) == get(mem[p]) && get(it[0]) == get(mem[p]), "a write through the iterator"); } break;
      default: { It x(it), y(cit); VF_CHECK(x == it && y == it, "copies"); }
    }
    stats().add("iterator_steps");
    stats().state(mix(mix(p, q), n));
  }
  // algorithms
  std::vector<long> want;
  for (size_t i = 0; i < n; ++i) want.push_back(get(mem[i]));
  It b(base), e(base + n);
  VF_CHECK(std::distance(b, e) == (ptrdiff_t)n, "std::distance");
  std::reverse(b, e);
  std::reverse(want.begin(), want.end());
  for (size_t i = 0; i < n; ++i) VF_CHECK(get(mem[i]) == want[i], "std::reverse");
  std::vector<T> out(n);
  std::copy(b, e, out.begin());
  for (size_t i = 0; i < n; ++i) VF_CHECK(get(out[i]) == want[i], "std::copy");
  VF_CHECK(std::max_element(b, e) - b == std::max_element(want.begin(), want.end()) - want.begin(), "std::max_element");
  size_t k = 0;
  for (It i = b; i != e; i++) k += (size_t)get(*i);
  VF_CHECK(k == (size_t)std::accumulate(want.begin(), want.end(), 0l), "a sum");
  It mid = b;
  std::advance(mid, (ptrdiff_t)(n / 2));
  VF_CHECK(mid - b == (ptrdiff_t)(n / 2), "std::advance");
  stats().add("algorithms", 5);
}

static void hash_iterators(Rng& r) {
  Table t(r.below(40));
  std::set<int> keys;
  for (uint64_t n = r.below(50); n; --n) {
    int k = (int)r.below(60);
    bool ex;
    if (r.chance(4, 5)) { t.insert(k, ex)->value() = Tracked(k * 2); keys.insert(k); } else { t.erase(k); keys.erase(k); }
  }
  const Table& ct = t;
  std::vector<Table::iterator> pos;
  std::vector<Table::const_iterator> cpos;
  for (Table::iterator it = t.begin(); it != t.end(); ++it) pos.push_back(it);
  for (Table::const_iterator it = ct.begin(); it != ct.end(); it++) cpos.push_back(it);
  pos.push_back(t.end());
  cpos.push_back(ct.end());
  VF_CHECK(pos.size() == keys.size() + 1 && cpos.size() == pos.size(), "the number of positions");
  for (size_t i = 0; i < pos.size(); ++i) {
    Table::const_iterator conv = pos[i];
    VF_CHECK(conv == cpos[i] && !(conv != cpos[i]), "conversion to const at " << i);
    size_t j = r.below(pos.size());
    VF_CHECK((pos[i] == pos[j]) == (i == j) && (pos[i] != pos[j]) == (i != j), "equality of positions " << i << " and " << j);
    Table::iterator a(pos[i]), b;
    b = pos[j];
    a = b;
    VF_CHECK(a == pos[j] && b == pos[j], "assignment of iterators");
    if (i + 1 < pos.size()) {
      Table::iterator x = pos[i];
      VF_CHECK(x++ == pos[i] && x == pos[i + 1], "it++ at " << i);
      x = pos[i];
      VF_CHECK(&++x == &x && x == pos[i + 1], "++it at " << i);
      VF_CHECK(&*pos[i] == pos[i].operator->() && &*cpos[i] == &*pos[i] && keys.count(pos[i]->key()), "the entry at " << i);
      VF_CHECK(t.find(pos[i]->key()) == pos[i] && ct.find(pos[i]->key()) == cpos[i], "find gives the position of the iteration");
      // the chain visits entries of the iteration, ends, and copies of its iterators agree
      Table::chain_iterator c1 = t.begin(pos[i]->key()), ce = t.end(pos[i]->key());
      size_t len = 0;
      while (c1 != ce) {
        Table::chain_iterator c2(c1);
        VF_CHECK(c2 == c1, "a copy of a chain iterator");
        VF_CHECK(keys.count((*c1).key()), "the chain leads nowhere");
        Table::chain_iterator c3 = c1++;
        VF_CHECK(c3 == c2 && c3 != c1, "chain it++");
        VF_CHECK(++len <= keys.size(), "the chain does not end");
      }
      ++c1;   // stays at the end
      VF_CHECK(c1 == ce, "a chain goes on after its end");
    }
    stats().add("hash_positions");
  }
  VF_CHECK(Table::iterator() == t.end() && Table::const_iterator() == ct.end() && Table::chain_iterator() == t.end(1), "default iterators");
  stats().state(mix(mix(keys.size(), t.numOfBuckets()), t.numOfTombstones()));
}

static void one(Rng& r, uint64_t c, const Args& a) {
  if (a.mode == "contract") contract(r, c);
  else if (a.mode == "hasher") hasher(r, c);
  else {
    switch (c % 4) {
      case 0: pointers<long>(r); break;
      case 1: pointers<Item>(r); break;
      case 2: pointers<unsigned char>(r); break;
      default: hash_iterators(r);
    }
  }
  if (c < 3) sample(a.mode + " case " + std::to_string(c) + " " + trace().substr(0, 200));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
