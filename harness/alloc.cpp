// Container operations in which the k-th allocation fails, once or from then on, for
// every k that the operation reaches.
#include "faults.h"
#include "tracked.h"
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <eni_types.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>
#include <malloc.h>
#include <memory>
#include <support/MallocAllocator.h>

static void say(const char* op, int res, const char* what) {
  Quiet q;
  trace() += op;
  stats().add(std::string(res == DONE ? "done " : "failed ") + what + " " + op);
}

// -- vectors ------------------------------------------------------------------
static long plain(int v) { return v; }
static long plain(const Tracked& v) { return v.get(); }
static long plain(const std::string& s) {
  return atol(s.c_str());
}
static void make(long v, int& o) { o = (int)v; }
static void make(long v, Tracked& o) { o = Tracked(v); }
static void make(long v, std::string& o) { o = std::to_string(v); o += v & 1 ? "" : " and so long that it needs memory of its own"; }

static long plain(const json::Value& v) {
  if (v.isInteger()) return (long)v.toInteger();
  if (v.isString()) return atol(v.toString().c_str());
  if (v.isArray()) return plain(v.toArray().at(0));
  if (v.isObject()) return plain(v["a key to find it by"]);
  return 0;
}
static void make(long v, json::Value& o) {
  switch (v % 4) {
    case 0: o = json::Value(eni::s256(v)); break;
    case 1: { std::string s; make(v, s); o = json::Value(s); break; }
    case 2: { json::Array a; a.push_back(json::Value(eni::s256(v))); a.emplace_back(eni::s256(1)); o = json::Value(a); break; }
    default: { json::Object x; x["a key to find it by"] = json::Value(eni::s256(v)); x["k"] = json::Value(true); o = json::Value(x); }
  }
}

template<class E> struct VectorScenario {
  typedef eni::Vector<E> V;
  typedef std::vector<long> M;

  static void same(const V& v, const M& m, const char* op, const char* when) {
    Quiet q;
    VF_CHECK(v.size() == m.size(), op << " " << when << ": size " << v.size() << ", expected " << m.size());
    VF_CHECK(v.size() <= v.capacity(), op << " " << when << ": more elements than room");
    for (size_t i = 0; i < m.size(); ++i)
      VF_CHECK(plain(v[i]) == m[i], op << " " << when << ": element " << i << " is " << plain(v[i]) << ", expected " << m[i]);
  }
  static M read(const V& v) { M m; for (size_t i = 0; i < v.size(); ++i) m.push_back(plain(v[i])); return m; }

  static void run(Rng r) {
    V a, b;
    const V &ca = a, &cb = b;
    M m, n;
    E e;
    std::vector<E> given;
    for (uint64_t i = 1 + r.below(12); i; --i) { make((long)r.below(1000), e); given.push_back(e); }
    for (uint64_t i = r.below(18); i; --i) { long x = (long)r.below(1000); make(x, e); a.push_back(e); m.push_back(x); }
    for (uint64_t i = r.below(9); i; --i) { long x = (long)r.below(1000); make(x, e); b.push_back(e); n.push_back(x); }
    if (r.chance(1, 3)) a.reserve(r.below(70));
    long x = (long)r.below(1000);
    make(x, e);
    size_t i = r.below(a.size() + 1), k = r.below(10), cap = a.capacity();
    M before = m, after = m, bn = n;
    bool strong = false;       // whatever fails
    const char* op = "?";
    int res;
    switch (r.below(18)) {
      case 0: case 1: op = "push_back"; strong = true; after.push_back(x); res = attempt([&] { a.push_back(e); }, op); break;
      case 2: op = "push_back(own)"; if (a.empty()) return; strong = true; i = r.below(a.size()); after.push_back(m[i]); res = attempt([&] { a.push_back(a[i]); }, op); break;
      case 3: op = "emplace_back"; strong = true; after.push_back(x); res = attempt([&] { a.emplace_back(e); }, op); break;
      case 4: op = "reserve"; strong = true; res = attempt([&] { a.reserve(cap + 1 + k); }, op); break;
      case 5: op = "resize"; after.resize(a.size() + k, 0); res = attempt([&] { if (std::is_same<E, std::string>::value) { E zero; { Quiet q; make(0, zero); } a.resize(a.size() + k, zero); } else a.resize(a.size() + k); }, op); break;
      case 6: op = "resize(n, v)"; after.resize(a.size() + k, x); res = attempt([&] { a.resize(a.size() + k, e); }, op); break;
      case 7: op = "insert"; after.insert(after.begin() + i, x); res = attempt([&] { a.insert(i, e); }, op); break;
      case 8: op = "insert(it)"; after.insert(after.begin() + i, x); res = attempt([&] { a.insert(a.begin() + i, e); }, op); break;
      case 9: op = "insert(n)"; after.insert(after.begin() + i, k, x); res = attempt([&] { a.insert(i, k, e); }, op); break;
      case 10: op = "insert(range)"; after.insert(after.begin() + i, n.begin(), n.end()); res = attempt([&] { a.insert(i, cb.begin(), cb.end()); }, op); break;
      case 11: op = "insert(own range)"; after.insert(after.begin() + i, m.begin(), m.end()); res = attempt([&] { a.insert(i, ca.begin(), ca.end()); }, op); break;
      case 12: op = "assign(n)"; after.assign(k, x); res = attempt([&] { a.assign(k, e); }, op); break;
      case 13: op = "assign(range)"; after = n; res = attempt([&] { a.assign(cb.begin(), cb.end()); }, op); break;
      case 14: op = "operator="; after = n; res = attempt([&] { a = b; }, op); break;
      case 15: op = "copy"; res = attempt([&] { V c(a); Quiet q; same(c, m, "copy", "made"); }, op); strong = true; break;
      case 16: op = "construct"; strong = true; res = attempt([&] { V c(k, e); V d(given); V f(k); Quiet q; same(c, M(k, x), "construct", "made"); }, op); break;
      default: op = "initializer list"; after.clear(); for (int j = 0; j < 3; ++j) after.push_back(x); res = attempt([&] { a = {e, e, e}; }, op); break;
    }
    if (res == DONE) same(a, after, op, "done");
    else if (strong || (F.hit == 1 && !std::is_same<E, json::Value>::value)) {
      // for want of the vector's own memory, nothing happened (but for assignment, where any content will do)
      bool assigns = !strcmp(op, "assign(n)") || !strcmp(op, "assign(range)") || !strcmp(op, "operator=") || !strcmp(op, "initializer list");
      if (assigns) m = read(a);
      else same(a, before, op, "failed");
    }
    { Quiet q; m = read(a); }
    same(b, bn, op, res == DONE ? "done, the other" : "failed, the other");
    VF_CHECK(Tracked::live().empty() || Tracked::live().size() == a.size() + b.size() + given.size() + 1,
             op << ": " << Tracked::live().size() << " objects live, " << a.size() + b.size() << " are elements");
    // and it works again
    for (int j = 0; j < 6; ++j) {
      long y = (long)r.below(1000);
      make(y, e);
      a.push_back(e); m.push_back(y);
      size_t at = r.below(m.size());
      a.insert(at, 2, e); m.insert(m.begin() + at, 2, y);
      at = r.below(m.size());
      a.erase(at); m.erase(m.begin() + at);
    }
    same(a, m, op, "and then");
    say(op, res, "Vector");
  }
};

// -- tables -------------------------------------------------------------------
struct IdHash { uint32_t operator()(int k) const { return (uint32_t)k; } };
struct SameHash { uint32_t operator()(int) const { return 5; } };
struct Owner {   // a key with memory of its own
  std::string s;
  bool operator==(const Owner& o) const { return s == o.s; }
  bool operator<(const Owner& o) const { return s < o.s; }
};
struct OwnerHash { uint32_t operator()(const Owner& o) const { return (uint32_t)o.s.size() * 7; } };
static void make_key(long v, int& k) { k = (int)v; }
static void make_key(long v, std::string& k) { k = "key" + std::to_string(v) + std::string(v % 5 * 9, 'x'); }
static void make_key(long v, Owner& k) { make_key(v, k.s); }

template<class T> struct Calls {
  static void put(T& t, const typename T::key_type& k, bool& existed) { t.insert(k, existed); }
  static size_t size(const T& t) { return t.numOfEntries(); }
  static void rehash(T& t, size_t n) { if (n) t.rehash(n); else t.rehash(); }
  static void clear(T& t) { t.clear(); }
  static void sound(const T& t, const char* op, const char* when) {
    size_t live = 0, tombs = 0, empty = 0, n = t.numOfBuckets();
    for (size_t i = 0; i < n; ++i) {
      typename T::entry_type* e = t.bucket(i).entry;
      if (e == T::EmptyBucket()) ++empty; else if (e == T::Tombstone()) ++tombs; else ++live;
    }
    VF_CHECK(live == t.numOfEntries() && tombs == t.numOfTombstones(), op << " " << when << ": counts " << t.numOfEntries() << "/" << t.numOfTombstones() << ", present " << live << "/" << tombs);
    VF_CHECK(n == 0 || empty, op << " " << when << ": no empty bucket");
  }
};
template<class X> struct Calls<eni::StringMap<X> > {
  typedef eni::StringMap<X> T;
  static void put(T& t, const typename T::key_type& k, bool&) { t[k]; }
  static size_t size(const T& t) { return t.size(); }
  static void rehash(T&, size_t) {}
  static void clear(T& t) { T e; t = e; }
  static void sound(const T&, const char*, const char*) {}
};

template<class T> struct TableScenario {
  typedef typename T::key_type K;
  typedef std::map<K, long> M;
  typedef Calls<T> C;

  static M read(const T& t) { M m; for (typename T::const_iterator i = t.begin(); i != t.end(); ++i) { m[i->key()] = i->value().get(); } return m; }
  static void same(T& t, const M& m, const char* op, const char* when) {
    Quiet q;
    VF_CHECK(C::size(t) == m.size() && t.empty() == m.empty(), op << " " << when << ": " << C::size(t) << " entries, expected " << m.size());
    C::sound(t, op, when);
    for (typename M::const_iterator i = m.begin(); i != m.end(); ++i) {
      typename T::iterator f = t.find(i->first);
      VF_CHECK(f != t.end() && f->value().get() == i->second, op << " " << when << ": an entry is lost or changed");
    }
    VF_CHECK(read(t) == m, op << " " << when << ": iteration");
  }
  static void fill(T& t, M& m, Rng& r, unsigned n, unsigned space) {
    for (; n; --n) {
      K k; make_key((long)r.below(space), k);
      if (r.chance(1, 4)) { t.erase(k); m.erase(k); continue; }
      bool e; C::put(t, k, e);
      long v = 1 + (long)r.below(1000);
      t.find(k)->value() = Tracked(v);
      m[k] = v;
    }
  }

  static void run(Rng r) {
    static const size_t sizes[] = {0, 1, 2, 3, 8, 16, 40};
    T a(sizes[r.below(7)]), b(sizes[r.below(7)]);
    M m, n;
    unsigned space = r.chance(1, 2) ? 12 : 60;
    fill(a, m, r, (unsigned)r.below(space), space);
    fill(b, n, r, (unsigned)r.below(space), space);
    // to the brink of the next rehash
    if (r.chance(1, 2)) {
      for (int j = 0; j < 80; ++j) {
        size_t e = C::size(a);
        if ((e + 1) * 4 > 3 * 17 && r.chance(1, 6)) break;
        K k; make_key((long)(100 + j), k);
        bool x; C::put(a, k, x);
        m[k] = 0;
      }
    }
    long knum = (long)r.below(space) + (r.chance(1, 2) ? 1000 : 0);
    K k; make_key(knum, k);
    bool in = m.count(k);
    M before = m, after = m, bn = n;
    bool strong = true, existed = !in;
    const char* op = "?";
    int res;
    switch (r.below(10)) {
      case 0: case 1: case 2: case 3: op = "insert"; if (!in) after[k] = 0; res = attempt([&] { C::put(a, k, existed); }, op); break;
      case 4: op = "erase"; strong = false; after.erase(k);
        if (!in && !m.empty()) { k = m.begin()->first; after.erase(k); in = true; }
        res = attempt([&] { a.erase(k); }, op);
        if (res == FAILED) { m = read(a); VF_CHECK(m == before || m == after, "erase failed, other entries are lost"); }
        break;
      case 5: op = "rehash"; { size_t g = r.chance(1, 3) ? 0 : 1 + r.below(200); res = attempt([&] { C::rehash(a, g); }, op); } break;
      case 6: op = "copy"; res = attempt([&] { T c(a); Quiet q; same(c, before, "copy", "made"); }, op); break;
      case 7: op = "operator="; strong = false; after = n; res = attempt([&] { a = b; }, op); break;
      case 8: op = "construct"; { size_t s = r.below(60); res = attempt([&] { T c(s); T d; Quiet q; VF_CHECK(c.empty() && d.empty(), "construct"); }, op); } break;
      default: op = "swap by moves"; after = n; strong = false;
        res = attempt([&] { T c(std::move(a)); a = std::move(b); b = std::move(c); }, op);
        if (res == DONE) bn = before; else bn = read(b);
        // (StringMap's moves copy)
        if (res == DONE && C::size(b) != bn.size()) bn = read(b);
        break;
    }
    if (res == DONE) same(a, after, op, "done");
    else if (strong) same(a, before, op, "failed");
    { Quiet q; m = read(a); }
    same(a, m, op, res == DONE ? "done" : "failed");
    same(b, bn, op, res == DONE ? "done, the other" : "failed, the other");
    VF_CHECK(Tracked::live().size() == C::size(a) + C::size(b), op << (res == DONE ? " done: " : " failed: ") << Tracked::live().size() << " values live, " << C::size(a) + C::size(b) << " are in the tables");
    fill(a, m, r, 60, 120);
    same(a, m, op, "and then");
    fill(b, bn, r, 20, 120);
    same(b, bn, op, "and then, the other");
    say(op, res, "table");
  }
};

// -- JSON values ----------------------------------------------------------------
struct JsonScenario {
  static json::Value tree(Rng& r, int depth) {
    switch (r.below(depth > 2 ? 3 : 6)) {
      case 0: return json::Value(eni::s256((long)r.below(100000)));
      case 1: return json::Value(std::string(r.below(60), (char)('a' + r.below(26))));
      case 2: return json::Value(r.chance(1, 2));
      case 3: case 4: { json::Array a; for (uint64_t n = r.below(6); n; --n) a.push_back(tree(r, depth + 1)); return json::Value(a); }
      default: return json::Value(object(r, depth));
    }
  }
  static json::Object object(Rng& r, int depth) {
    json::Object o;
    for (uint64_t n = r.below(14); n; --n) { std::string k = "k" + std::to_string(r.below(20)); if (r.chance(1, 5)) o.erase(k); else o[k] = tree(r, depth + 1); }
    return o;
  }
  static std::string dump(const json::Object& o) {
    Quiet q;
    std::map<std::string, std::string> m;
    size_t n = 0;
    for (json::Object::const_iterator i = o.begin(); i != o.end(); ++i, ++n) m[i->key()] = dump(i->value());
    VF_CHECK(n == o.size() && m.size() == n, "an object of " << o.size() << " members shows " << m.size());
    std::string s = "{";
    for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) {
      VF_CHECK(o.find(i->first) != o.end(), "a member is not found");
      s += i->first + ":" + i->second + ",";
    }
    return s + "}";
  }
  static std::string dump(const json::Array& a) { Quiet q; std::string s = "["; for (size_t i = 0; i < a.size(); ++i) s += dump(a[(int)i]) + ","; return s + "]"; }
  static std::string dump(const json::Value& v) {
    Quiet q;
    if (v.isInteger()) return v.toInteger().str();
    if (v.isString()) return "'" + v.toString() + "'";
    if (v.isBoolean()) return v.toBoolean() ? "T" : "F";
    if (v.isArray()) return dump(v.toArray());
    if (v.isObject()) return dump(v.toObject());
    return "u";
  }
  static void run(Rng r) {
    json::Value v = tree(r, 0), w = tree(r, 0);
    json::Object o = object(r, 0), p = object(r, 0);
    json::Array a, b;
    for (uint64_t n = r.below(9); n; --n) a.push_back(tree(r, 1));
    for (uint64_t n = r.below(9); n; --n) b.push_back(tree(r, 1));
    std::string dv, dw, dO, dp, da, db, k;
    { Quiet q; dv = dump(v); dw = dump(w); dO = dump(o); dp = dump(p); da = dump(a); db = dump(b); k = "k" + std::to_string(r.below(40)); }
    std::string want;
    const json::Object& co = o;
    const char* op;
    int res;
    // of what may change, the text when done and when failed ('?': whatever)
    std::string *t = 0, done, failed;
    switch (r.below(14)) {
      case 0: op = "Value copy"; res = attempt([&] { json::Value c(v); VF_CHECK(dump(c) == dv, "Value copy"); }, op); break;
      case 1: case 2: op = "Value ="; t = &dv; done = dw; failed = "?"; res = attempt([&] { v = w; }, op); break;
      case 3: op = "Value(Object)"; res = attempt([&] { json::Value c(o); VF_CHECK(dump(c) == dO, op); }, op); break;
      case 4: op = "Value(Array)"; res = attempt([&] { json::Value c(a); VF_CHECK(dump(c) == da, op); }, op); break;
      case 5: op = "Object copy"; res = attempt([&] { json::Object c(o); VF_CHECK(dump(c) == dO, op); }, op); break;
      case 6: op = "Array copy"; res = attempt([&] { json::Array c(a); VF_CHECK(dump(c) == da, op); }, op); break;
      case 7: op = "Object ="; t = &dO; done = dp; failed = "?"; res = attempt([&] { o = p; }, op); break;
      case 8: op = "Array ="; t = &da; done = db; failed = "?"; res = attempt([&] { a = b; }, op); break;
      case 9: op = "Object []";
        t = &dO; failed = dO;
        { Quiet q; if (o.find(k) != o.end()) done = dO; else { json::Object x(o); x[k]; done = dump(x); } }
        res = attempt([&] { o[k]; }, op);
        break;
      case 10: op = "Array push_back"; t = &da; failed = da; { Quiet q; done = da.substr(0, da.size() - 1) + dw + ",]"; } res = attempt([&] { a.push_back(w); }, op); break;
      case 11: op = "Array emplace_back"; t = &da; failed = da; { Quiet q; done = da.substr(0, da.size() - 1) + "'" + k + "',]"; } res = attempt([&] { a.emplace_back(k); }, op); break;
      case 12: op = "member = own"; if (!v.isObject() || v.asObject().empty()) return; t = &dv; failed = "?"; done = dump(v.asObject().begin()->value()); res = attempt([&] { v = v.asObject().begin()->value(); }, op); break;
      default: op = "absent";
        res = attempt([&] { json::Value c(v["no such"]); json::Value d(co.find("nope") == co.end() ? w : v); VF_CHECK(c.isUndefined() && dump(d) == dw, op); }, op);
    }
    const char* when = res == DONE ? " done: " : " failed: ";
    if (t) { Quiet q; *t = res == DONE ? done : failed; }
    {
      Quiet q;
      std::string n[] = {dump(v), dump(w), dump(o), dump(p), dump(a), dump(b)}, *x[] = {&dv, &dw, &dO, &dp, &da, &db};
      for (int i = 0; i < 6; ++i)
        VF_CHECK(*x[i] == "?" || *x[i] == n[i], op << when << "a value changed: " << n[i].substr(0, 300) << " expected " << x[i]->substr(0, 300));
    }
    // and it works again
    a.push_back(v); a.push_back(w); o["again"] = w; v = w;
    VF_CHECK(dump(a[(int)a.size() - 1]) == dw && dump(o["again"]) == dw && dump(v) == dw, op << when << "and then");
    { json::Object c(o); json::Array d(a); Quiet q; VF_CHECK(dump(c) == dump(o) && dump(d) == dump(a), op << when << "copies"); }
    say(op, res, "json");
  }
};

// -- the allocators -------------------------------------------------------------
struct Big { char c[3000]; };
template<class T> struct AllocatorScenario {
  typedef typename eni::MallocAllocator<int>::template rebind<T>::other A;
  typedef typename A::size_type N;
  // storage of n elements, or 'no memory'
  static T* get(A& a, N n, const char* op) {
    T* p = 0;
    int res = attempt([&] { p = a.allocate(n); }, op, n > (N)1 << 36);
    VF_CHECK(res == FAILED || p || !n, op << ": nothing for " << n << " elements, and no exception");
    VF_CHECK(res == FAILED || n <= a.max_size(), op << ": storage for " << n << " elements, more than max_size()");
    VF_CHECK(res == FAILED || !p || malloc_usable_size(p) / sizeof(T) >= n, op << ": " << malloc_usable_size(p) << " bytes for " << n << " elements of " << sizeof(T));
    VF_CHECK(!((uintptr_t)p % alignof(T)), op << ": not aligned");
    say(op, res, "allocator");
    return res == DONE ? p : 0;
  }
  static void run(Rng r) {
    A a, b(a), m(std::move(b));
    eni::MallocAllocator<void> v;
    N max = a.max_size(), wrap = (N)-1 / sizeof(T) + 1;      // wrap * sizeof(T) is beyond size_t
    VF_CHECK(max <= (N)-1 / sizeof(T), "max_size() " << max << " elements of " << sizeof(T));
    N few = r.below(200), huge[] = {max, max + 1, max - r.below(1000), wrap + r.below(300), wrap * 2 + r.below(300), wrap + wrap / 2, (N)-1, (N)-1 - r.below(100), ((N)1 << 63) + r.below(50), ((N)1 << 62) + r.below(50), ((N)1 << 48) + r.below(50)};
    T* p = get(a, few, "allocate");
    T* one = 0;
    if (attempt([&] { one = m.allocate(); }, "allocate()") == DONE) VF_CHECK(one && malloc_usable_size(one) >= sizeof(T), "allocate() gives no element");
    if (p) {
      for (N i = 0; i < few; ++i) { VF_CHECK(a.address(p[i]) == p + i, "address"); a.construct(p + i); }
      for (N i = 0; i < few; ++i) { const T& c = p[i]; VF_CHECK(a.address(c) == p + i, "address"); a.destroy(p + i); }
      if (one) {
        bool made = false;
        if (attempt([&] { a.construct(one, T()); made = true; }, "construct") == DONE) a.destroy(one);
        VF_CHECK(made || F.hit, "construct");
      }
    }
    // no more than can be counted
    T* h = get(a, huge[r.below(sizeof huge / sizeof *huge)], "allocate much");
    if (h) a.deallocate(h);
    void* u = 0;
    N bytes = r.chance(1, 2) ? r.below(5000) : huge[r.below(sizeof huge / sizeof *huge)];
    int res = attempt([&] { u = v.allocate(bytes); }, "allocate bytes", bytes > (N)1 << 36);
    VF_CHECK(res == FAILED || !u || malloc_usable_size(u) >= bytes, "allocate bytes: " << malloc_usable_size(u) << " for " << bytes);
    v.deallocate(u);
    if (p && few) m.deallocate(p, few); else if (p) a.deallocate(p);
    a.deallocate(one);
  }
};

typedef void (*scenario)(Rng);
static void one(Rng& r, uint64_t c, const Args&) {
  static const scenario S[] = {
    VectorScenario<int>::run, VectorScenario<Tracked>::run, VectorScenario<std::string>::run,
    TableScenario<eni::HashTable<int, Tracked, IdHash> >::run, TableScenario<eni::HashTable<int, Tracked, SameHash> >::run,
    TableScenario<eni::HashTable<Owner, Tracked, OwnerHash> >::run, TableScenario<eni::StringHashTable<Tracked> >::run,
    TableScenario<eni::StringMap<Tracked> >::run,
    VectorScenario<json::Value>::run, JsonScenario::run,
    AllocatorScenario<char>::run, AllocatorScenario<Big>::run, AllocatorScenario<long>::run, AllocatorScenario<std::string>::run};
  const unsigned count = sizeof S / sizeof *S;
  scenario s = S[c % count];
  for (int p = 0; p < 2; ++p)
    for (uint64_t at = 1; ; ++at) {
      F.armed = false; F.persistent = p; F.at = at; F.sites = 0; F.hit = 0;
      { Quiet q; blocks().clear(); }
      { Quiet q; trace() = "scenario " + std::to_string(c % count) + (p ? ", all from" : ", only") + " allocation " + std::to_string(at) + ": "; trace().reserve(4000); }
      s(r);
      VF_CHECK(blocks().empty(), blocks().size() << " blocks of memory were not released");
      VF_CHECK(Tracked::live().empty(), Tracked::live().size() << " objects were not destroyed");
      Quiet q;
      stats().state(mix(mix(mix(mix(c, p), at), F.hit), F.sites));
      stats().add("scenarios");
      if (F.hit) stats().add(F.hit == 1 ? "container allocations failed" : "element allocations failed");
      stats().max("max_sites", F.sites);
      if (c < 8 && at == 2) sample(trace());
      VF_CHECK(at < 5000, "no end of allocations");
      if (!F.hit) break;
    }
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
