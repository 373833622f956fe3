// HashTable, StringHashTable and StringMap against std::map, under random histories.
//   --mode map | structure | strmap | iterate | big | all
#include "tracked.h"
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <type_traits>

using namespace vf;

// -- keys and hashers ---------------------------------------------------------
struct IdHash { uint32_t operator()(int k) const { return (uint32_t)k; } };
struct ConstHash { uint32_t operator()(int) const { return 0xFFFFFFFFu; } };
struct Mod7Hash { uint32_t operator()(int k) const { return (uint32_t)(((k % 7) + 7) % 7) * 0x24924925u; } };
struct MulHash { uint32_t operator()(int k) const { return (uint32_t)k * 2654435761u; } };
struct StepHash { uint32_t operator()(int k) const { return (uint32_t)(k / 3) * 17u * 37u; } };  // few low-order differences
struct Pair {
  short a; short b;
  bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
  bool operator<(const Pair& o) const { return a != o.a ? a < o.a : b < o.b; }
};
struct PairHash { uint32_t operator()(const Pair& p) const { return (uint16_t)p.a; } };  // equal for many
struct LenHash { uint32_t operator()(const std::string& s) const { return (uint32_t)s.size() & 3; } };
struct FirstHash { uint32_t operator()(const std::string& s) const { return s.empty() ? 0 : (unsigned char)s[0]; } };

static void make_key(Rng& r, unsigned space, int& k) { k = (int)r.below(space) - (r.chance(1, 4) ? (int)space / 2 : 0); }
static void make_key(Rng& r, unsigned space, Pair& k) { k.a = (short)r.below(6); k.b = (short)r.below(space / 6 + 1); }
static void make_key(Rng& r, unsigned space, std::string& k) {
  uint64_t i = r.below(space);
  switch (i % 5) {
    case 0: k = "k" + std::to_string(i); break;
    case 1:                                                                    // full collisions under SDBM and ELF
      switch (i % 3) {
        case 0: k = std::string(i % 97, '\0') + "a"; break;
        case 1: k = sdbm_twin(i / 15, 5); break;
        default: k = elf_twin(i / 15, 9); break;
      }
      break;
    case 2: k = std::string(i, 'x').substr(0, 300) + std::to_string(i); break;
    case 3: k = std::string("ab\0", 3) + (char)(i & 255) + (char)(i >> 8); break;
    default: k = std::string(1, (char)i) + (char)(i >> 8); break;
  }
  if (i == 0) k.clear();
}
static std::string show(int k) { return std::to_string(k); }
static std::string show(const Pair& k) { return std::to_string(k.a) + "/" + std::to_string(k.b); }
static std::string show(const std::string& k) { return "'" + esc(k).substr(0, 40) + "'"; }

extern bool g_values, g_structure, g_iterate, g_life;

// -- an entry type and an allocator of the user's own ----------------------------
template<class K, class V> struct OwnEntry {
  typedef K key_type;
  typedef V value_type;
  OwnEntry(const K& k) : before(0x5a5a), m_v(), m_k(k), after(0xa5a5) {}
  const K& key() const { sound(); return m_k; }
  K& key() { sound(); return m_k; }
  const V& value() const { sound(); return m_v; }
  V& value() { sound(); return m_v; }
  void setValue(const V& v) { sound(); m_v = v; }
  void sound() const { VF_CHECK(before == 0x5a5a && after == 0xa5a5, "an entry that is none of the table's own type"); }
  uint64_t before;
  V m_v;
  K m_k;
  uint64_t after;
};

struct Arena {   // what the tables' own allocators hold: where, and of which one
  static std::map<const void*, uint64_t>& blocks() { static std::map<const void*, uint64_t> b; return b; }
  static bool& used() { static bool u = false; return u; }
  static uint64_t fresh() { static uint64_t n = 0; return ++n; }
};
template<class D> class OwnAlloc : public eni::MallocAllocator<D> {
  typedef eni::MallocAllocator<D> base;
  uint64_t id;
public:
  typedef typename base::size_type size_type;
  typedef typename base::pointer pointer;
  template<class O> struct rebind { typedef OwnAlloc<O> other; };
  OwnAlloc() throw() : id(Arena::fresh()) { Arena::used() = true; }
  OwnAlloc(const OwnAlloc& o) throw() : base(), id(o.id) {}
  OwnAlloc(OwnAlloc&& o) throw() : base(), id(o.id) {}
  OwnAlloc& operator=(const OwnAlloc& o) throw() { id = o.id; return *this; }
  OwnAlloc& operator=(OwnAlloc&& o) throw() { id = o.id; return *this; }
  pointer allocate(size_type n = 1, const void* hint = 0) {
    pointer p = base::allocate(n, hint);
    Quiet q;
    Arena::blocks()[p] = id;
    return p;
  }
  void deallocate(pointer p, size_type n = 0) {
    if (p) {
      std::map<const void*, uint64_t>::iterator it = Arena::blocks().find(p);
      VF_CHECK(it != Arena::blocks().end(), "storage given back that the allocator did not give");
      VF_CHECK(it->second == id, "storage given back to another allocator than it came from");
      Quiet q;
      Arena::blocks().erase(it);
    }
    base::deallocate(p, n);
  }
};

static void say(const std::string& s) { trace() += s; trace() += ' '; }

// -- the driver ---------------------------------------------------------------
template<class T, class H>
struct Driver {
  typedef typename T::key_type K;
  typedef std::map<K, long> M;
  struct Slot { T* t; M m; size_t peak; };
  Rng& r;
  unsigned space;
  std::vector<Slot> pool;
  uint64_t& dead_key;

  Driver(Rng& rng, unsigned sp) : r(rng), space(sp), dead_key(cur_case()) {}
  ~Driver() { for (size_t i = 0; i < pool.size(); ++i) delete pool[i].t; }

  K key() { K k; make_key(r, space, k); return k; }
  K some_key(const Slot& s) {
    if (!s.m.empty() && r.chance(2, 3)) {
      typename M::const_iterator it = s.m.begin();
      std::advance(it, r.below(std::min<size_t>(s.m.size(), 50)));
      return it->first;
    }
    return key();
  }

  void structure(Slot& s, const char* op) {
    const T& t = *s.t;
    size_t n = t.numOfBuckets(), live = 0, tombs = 0, empty = 0;
    H h;
    for (size_t i = 0; i < n; ++i) {
      typename T::entry_type* e = t.bucket(i).entry;
      if (e == T::EmptyBucket()) ++empty;
      else if (e == T::Tombstone()) ++tombs;
      else {
        ++live;
        VF_CHECK(t.bucket(i).hash == h(e->key()), op << ": bucket with another hash than its key's");
      }
    }
    VF_CHECK(live == t.numOfEntries(), op << ": " << t.numOfEntries() << " entries counted, " << live << " present");
    VF_CHECK(tombs == t.numOfTombstones(), op << ": " << t.numOfTombstones() << " tombstones counted, " << tombs << " present");
    VF_CHECK(n == 0 || empty > 0, op << ": no empty bucket left of " << n);
    VF_CHECK(n <= s.peak, op << ": " << n << " buckets though at most " << s.peak << " are justified");
    if (n) {
      float lf = t.load_factor();
      VF_CHECK(lf == (float)live / (float)n, op << ": load factor " << lf);
    }
    stats().max("max_buckets", n);
    stats().max("max_tombstones", tombs);
    stats().add("structure_scans");
    stats().state(mix(mix(mix(n, live), tombs), 77));
  }

  // what may be held for this many entries, whatever the history
  static size_t room(size_t entries) { return 16 * entries + 64 + (entries > 30000 ? 140000 : 0); }
  void grew(Slot& s) { s.peak = std::max(s.peak, room(s.m.size())); }

  void iterate(Slot& s, const char* op) {
    std::set<K> seen;
    size_t n = 0, turn = s.m.empty() ? 0 : r.below(s.m.size());
    for (typename T::iterator it = s.t->begin(), e = s.t->end(); it != e; ++n) {
      K k = it->key();
      VF_CHECK(seen.insert(k).second, op << ": iteration gave " << show(k) << " twice");
      VF_CHECK(s.m.count(k) && s.m[k] == it->value().get(), op << ": iteration gave an entry that is not there: " << show(k));
      VF_CHECK(n <= s.m.size(), op << ": iteration does not end");
      typename T::iterator was = it;
      VF_CHECK(was == it && !(was != it), op << ": a copy of an iterator differs");
      const typename T::iterator fixed = it;
      VF_CHECK(fixed->key() == k && &*fixed == &*it, op << ": a const copy of an iterator denotes another entry");
      if (n == turn) {                                      // the rest, by a const iterator made here
        typename T::const_iterator c = it;
        std::set<K> rest(seen);
        for (size_t m = 0; c != static_cast<const T&>(*s.t).end(); ++m, ++c)
          VF_CHECK(m == 0 ? c->key() == k : rest.insert(c->key()).second, op << ": const iteration from " << show(k) << " gave " << show(c->key()) << " twice");
        VF_CHECK(rest.size() == s.m.size(), op << ": const iteration from place " << n << " gave up to " << rest.size() << " of " << s.m.size());
      }
      if (n & 1) ++it;
      else { typename T::iterator old = it++; VF_CHECK(old == was, op << ": it++ did not give the old position"); }
      VF_CHECK(it != was, op << ": the iterator did not move");
    }
    VF_CHECK(n == s.m.size(), op << ": iteration gave " << n << " of " << s.m.size() << " entries");
    const T& ct = *s.t;
    n = 0;
    uint64_t h = 0;
    for (typename T::const_iterator it = ct.begin(); it != ct.end(); ++it, ++n) {
      K k = it->key();
      VF_CHECK(s.m.count(k) && s.m[k] == it->value().get() && (*it).value().get() == s.m[k], op << ": const iteration");
      h += (uint64_t)s.m[k] * 31;
    }
    VF_CHECK(n == s.m.size(), op << ": const iteration gave " << n << " of " << s.m.size());
    typename T::const_iterator conv = s.t->begin();
    VF_CHECK(conv == ct.begin(), op << ": conversion to const_iterator");
    VF_CHECK((s.t->begin() == s.t->end()) == s.m.empty(), op << ": begin and end");
    stats().add("iterations");
    stats().add("entries_visited", 2 * n);
    stats().state(mix(h, n));
  }

  template<class TT> void chain(Slot& s, TT& t, const K& k, const char* op) {
    H h;
    uint32_t hk = h(k);
    std::set<K> want, got;
    if (s.m.count(k))
      for (typename M::iterator it = s.m.begin(); it != s.m.end(); ++it)
        if (h(it->first) == hk) want.insert(it->first);
    const T& ct = *s.t;
    size_t n = 0, turn = want.empty() ? 0 : r.below(want.size());
    for (auto it = t.begin(k), e = t.end(k); it != e; ++it) {
      K kk = it->key();
      if (n == 0) VF_CHECK(kk == k, op << ": the chain of " << show(k) << " starts at " << show(kk));
      VF_CHECK(got.insert(kk).second, op << ": chain gave " << show(kk) << " twice");
      VF_CHECK((*it).value().get() == s.m[kk], op << ": chain gave another value");
      const auto fixed = it;
      VF_CHECK(&*fixed == &*it && fixed->key() == kk && fixed == it, op << ": a const copy of a chain iterator denotes another entry");
      if (n == turn) {                                      // the rest of the chain, by a const iterator made here
        typename T::const_chain_iterator c = it, cend = ct.end(k);
        std::set<K> rest(got);
        for (size_t m = 0; c != cend; ++m) {
          VF_CHECK(m == 0 ? c->key() == kk : rest.insert(c->key()).second, op << ": chain as const from " << show(kk) << " gave " << show(c->key()) << " twice");
          if (m & 1) c++; else ++c;
        }
        VF_CHECK(rest == want, op << ": chain as const from place " << n << " gave up to " << rest.size() << " entries, expected " << want.size());
        auto back = t.begin(k);
        back = it;
        VF_CHECK(back == it && !(back != it), op << ": an assigned chain iterator differs");
        stats().add("chains_converted");
      }
      ++n;
    }
    VF_CHECK(got == want, op << ": chain of " << show(k) << " gave " << got.size() << " entries, expected " << want.size());
    stats().add("chains");
    stats().max("max_chain", want.size());
    stats().state(mix(mix(hk, n), s.m.size()));
  }

  void compare(Slot& s, const char* op) {
    const T& ct = *s.t;
    VF_CHECK(s.t->numOfEntries() == s.m.size() && s.t->empty() == s.m.empty(),
             op << ": " << s.t->numOfEntries() << " entries, expected " << s.m.size());
    for (typename M::iterator it = s.m.begin(); it != s.m.end(); ++it) {
      typename T::iterator f = s.t->find(it->first);
      VF_CHECK(f != s.t->end(), op << ": lost " << show(it->first));
      VF_CHECK(f->key() == it->first, op << ": find gave another key");
      VF_CHECK(f->value().get() == it->second, op << ": value of " << show(it->first) << " is " << f->value().get() << ", expected " << it->second);
      typename T::const_iterator cf = ct.find(it->first);
      VF_CHECK(cf != ct.end() && cf->key() == it->first && &cf->value() == &f->value(), op << ": const find of " << show(it->first));
      VF_CHECK(ct.count(it->first) == 1, op << ": count(" << show(it->first) << ") is " << ct.count(it->first));
    }
    for (int i = 0; i < 6; ++i) {
      K k = key();
      bool in = s.m.count(k);
      VF_CHECK((s.t->find(k) != s.t->end()) == in, op << ": find(" << show(k) << ")");
      VF_CHECK((ct.find(k) != ct.end()) == in, op << ": const find(" << show(k) << ")");
      VF_CHECK(ct.count(k) == (in ? 1u : 0u), op << ": count(" << show(k) << ")");
    }
    stats().add("comparisons");
    uint64_t h = 0;
    for (typename M::iterator it = s.m.begin(); it != s.m.end(); ++it) h = mix(h, it->second);
    stats().state(h);
  }

  void alive(const char* op) {
    size_t n = 0;
    for (size_t i = 0; i < pool.size(); ++i) n += pool[i].m.size();
    VF_CHECK(Tracked::live().size() == n, op << ": " << Tracked::live().size() << " values alive, " << n << " entries held");
    if (Arena::used()) VF_CHECK(Arena::blocks().size() == n, op << ": " << Arena::blocks().size() << " blocks of the table's own allocator held, for " << n << " entries");
    stats().add("lifetime_checks");
  }

  void after(Slot& s, const char* op, bool full) {
    grew(s);
    if (g_structure && (full || s.m.size() < 200)) structure(s, op);
    if (g_values && (full || r.chance(1, 8))) compare(s, op);
    if (g_iterate && (full || r.chance(1, 8))) {
      iterate(s, op);
      for (int i = 0; i < 3; ++i) {
        K k = some_key(s);
        chain(s, *s.t, k, op);
        chain(s, static_cast<const T&>(*s.t), k, op);
      }
    }
  }

  void insert(Slot& s, const K& k, long v) {
    bool exist = r.chance(1, 2), in = s.m.count(k);
    typename T::entry_type* e = s.t->insert(k, exist);
    VF_CHECK(e && e->key() == k, "insert(" << show(k) << ") gave another entry");
    VF_CHECK(exist == in, "insert(" << show(k) << ") says exist=" << exist);
    VF_CHECK(e->value().get() == (in ? s.m[k] : 0), "insert(" << show(k) << "): value " << e->value().get());
    s.m[k] = in ? s.m[k] : 0;
    if (!in || r.chance(1, 2)) {
      switch (r.below(5)) {
        case 0: e->setValue(e->value()); break;
        case 1: case 2: e->setValue(Tracked(v)); s.m[k] = v; break;
        default: e->value() = Tracked(v); s.m[k] = v; break;
      }
    }
  }
  void erase(Slot& s, const K& k) {
    bool in = s.m.count(k), did;
    if (in && r.chance(1, 4)) { const K& own = s.t->find(k)->key(); K copy(own); did = s.t->erase(r.chance(1, 2) ? own : copy); }
    else did = s.t->erase(k);
    VF_CHECK(did == in, "erase(" << show(k) << ") says " << did);
    s.m.erase(k);
  }

  void run(unsigned steps) {
    static const size_t sizes[] = {0, 1, 2, 3, 3, 3, 5, 16, 17, 36, 37, 100, 1000};
    for (int i = 0; i < 3; ++i) {
      Slot s;
      size_t n = sizes[r.below(13)];
      s.t = r.chance(1, 4) ? new T() : new T(n);
      s.peak = std::max(room(0), room(n));
      pool.push_back(s);
      say("T(" + std::to_string(n) + ")");
    }
    int phase = 0;
    bool fragile = g_life && r.chance(1, 2);
    unsigned calm = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 8 : 40;   // how rarely whole tables are replaced
    for (unsigned step = 0; step < steps; ++step) {
      if (step % 64 == 0) phase = (int)r.below(5);
      Slot& s = pool[r.chance(3, 4) ? 0 : r.below(3)];
      Slot& o = pool[r.below(3)];
      uint64_t c = r.below(100);
      if (c >= 88 && c <= 97 && !r.chance(1, calm)) c = r.below(86);
      const char* op = "?";
      bool full = false;
      bool threw = false;
      if (fragile && r.chance(1, 2)) Tracked::countdown() = (long)r.below(r.chance(1, 2) ? 3 : 2 * std::min<size_t>(o.m.size(), 100) + 4);
      unsigned ins = phase == 0 ? 85 : phase == 1 ? 10 : phase == 2 ? 45 : phase == 3 ? 60 : 30;
      if (c < ins) { op = "insert"; K k = r.chance(1, 5) ? some_key(s) : key(); say("i" + show(k)); 
        try { insert(s, k, 1 + (long)r.below(1000000)); }
        catch (const CopyFailed&) { threw = true; }
      }
      else if (c < 86) { op = "erase"; K k = some_key(s); say("e" + show(k)); erase(s, k); }
      else if (c < 88) { op = "rehash"; say("R"); s.t->rehash(); full = true; }
      else if (c < 90) {
        op = "rehash(n)";
        size_t n = r.chance(1, 2) ? r.below(8) : s.m.size() + r.below(2 * s.m.size() + 4);
        say("R" + std::to_string(n));
        s.t->rehash(n);
        s.peak = std::max(s.peak, n + 1);
        full = true;
      }
      else if (c == 90 && r.chance(1, 6)) {
        op = "rehash(too much)";
        static const size_t much[] = {(size_t)1 << 31, ((size_t)1 << 31) + 7, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 3, (size_t)5 << 32,
                                      ((size_t)1 << 60) + 2, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX};
        size_t n = much[r.below(11)] + (r.chance(1, 2) ? 0 : r.below(s.m.size() + 3));
        if (n < (size_t)1 << 31) n = SIZE_MAX;
        say("RR");
        bool refused = false;
        try { s.t->rehash(n); } catch (const std::bad_alloc&) { refused = true; }
        VF_CHECK(refused || s.t->numOfBuckets() > s.m.size(), "rehash(" << n << ") of " << s.m.size() << " entries left " << s.t->numOfBuckets() << " buckets");
        if (!refused) s.peak = std::max(s.peak, n + 1);
        stats().add("rehash(too much)");
        full = true;
      }
      else if (c == 90 && r.chance(1, 2)) { op = "clear"; say("C"); s.t->clear(); s.m.clear(); full = true; }
      else if (c == 91 || c == 92) {
        op = "copy-construct"; say("cc");
        T* n = 0;
        try { n = new T(*o.t); } catch (const CopyFailed&) { threw = true; }
        if (n) {
          M m = o.m;
          size_t p = o.peak;
          delete s.t;
          s.t = n; s.m = m; s.peak = p;
        } else after(o, "copied from, in vain", true);
        full = true;
      }
      else if (c == 93) {
        op = "move-construct"; say("mc");
        T* n = new T(std::move(*o.t));
        M m; m.swap(o.m);
        size_t p = o.peak;
        VF_CHECK(o.t->empty() && o.t->begin() == o.t->end(), "moved-from table is not empty");
        delete s.t;
        if (&s == &o) { s.t = n; s.m = m; }
        else { s.t = n; s.m = m; s.peak = p; after(o, "moved-from", true); }
        full = true;
      }
      else if (c == 94 || c == 95) { op = "copy-assign"; say(&s == &o ? "a=self" : "a="); 
        try { *s.t = *o.t; } catch (const CopyFailed&) { threw = true; }
        if (&s != &o && threw) after(o, "assigned from, in vain", true);
        else if (&s != &o) { s.m = o.m; s.peak = std::max(s.peak, o.peak); after(o, "assigned from", true); } full = true; }
      else if (c == 96) {
        op = "move-assign"; say(&s == &o ? "m=self" : "m=");
        *s.t = std::move(*o.t);
        if (&s != &o) { s.m.swap(o.m); o.m.clear(); s.peak = std::max(s.peak, o.peak); VF_CHECK(o.t->empty(), "moved-from table is not empty"); after(o, "moved-from", true); }
        full = true;
      }
      else if (c == 97) {   // through iterators
        op = "write through iterators"; say("w");
        Tracked::countdown() = -1;
        for (typename T::iterator it = s.t->begin(); it != s.t->end(); ++it) {
          long v = (long)r.below(1000);
          it->value() = Tracked(v);
          s.m[it->key()] = v;
        }
        full = true;
      }
      else { op = "look"; full = step % 3 == 0; }
      Tracked::countdown() = -1;
      if (threw) { say("!"); stats().add("copies that threw"); }
      after(s, op, full);
      if (g_life) alive(op);
      stats().add("operations");
    }
    for (int i = 0; i < 3; ++i) after(pool[i], "end", true);
    stats().max("max_entries", pool[0].m.size());
  }

  // Many entries, then churn at a constant size.
  void big(unsigned n) {
    Slot s;
    s.t = new T();
    s.peak = room(0);
    pool.push_back(s);
    Slot& p = pool[0];
    for (unsigned i = 0; i < n; ++i) {
      K k; make_big(i, k);
      bool exist;
      s.t->insert(k, exist)->value() = Tracked((long)i);
      VF_CHECK(!exist, "a new key exists already");
      p.m[k] = i;
      grew(p);
    }
    after(p, "big", true);
    const unsigned rounds = n > 150000 ? n : std::max(3 * n, 12000u), pause = std::max(n, 500u);
    for (unsigned i = 0; i < rounds; ++i) {
      K k; make_big(i, k);
      VF_CHECK(s.t->erase(k), "lost key in churn");
      p.m.erase(k);
      K k2; make_big(i + n, k2);
      bool exist;
      s.t->insert(k2, exist)->value() = Tracked((long)i);
      p.m[k2] = i;
      VF_CHECK(s.t->numOfBuckets() <= p.peak, "churn at " << n << " entries grew the table to " << s.t->numOfBuckets());
      VF_CHECK(s.t->numOfEntries() == n, "entries");
      stats().add("operations", 2);
      if (i % pause == pause - 1) after(p, "churn", true);
    }
    after(p, "churn", true);
    for (unsigned i = rounds; i < rounds + n; ++i) {
      K k; make_big(i, k);
      VF_CHECK(s.t->erase(k), "lost key");
      p.m.erase(k);
    }
    after(p, "emptied", true);
    stats().max("max_entries", n);
  }
  static void make_big(unsigned i, int& k) { k = (int)(i * 7); }
  static void make_big(unsigned i, std::string& k) { k = "key" + std::to_string(i); }
  static void make_big(unsigned i, Pair& k) { k.a = (short)i; k.b = (short)(i >> 16); }
};

#if PART == 0
// -- StringMap ----------------------------------------------------------------
typedef eni::StringMap<Tracked> Map;
typedef std::map<std::string, long> Model;

static void map_compare(Map& t, const Model& m, const std::vector<std::string>& keys, Rng& r, const char* op) {
  const Map& ct = t;
  VF_CHECK(t.size() == m.size() && t.empty() == m.empty(), op << ": size " << t.size() << ", expected " << m.size());
  size_t n = 0;
  std::set<std::string> seen;
  for (Map::const_iterator it = ct.begin(), e = ct.end(); it != e; ++it, ++n) {
    Model::const_iterator f = m.find(it->key());
    VF_CHECK(f != m.end(), op << ": holds a key of " << it->key().size() << " bytes that was not put there: " << show(it->key()));
    VF_CHECK(f->second == it->value().get(), op << ": value of " << show(f->first));
    VF_CHECK(seen.insert(f->first).second, op << ": key twice");
  }
  VF_CHECK(n == m.size(), op << ": iteration gave " << n << " of " << m.size());
  for (int i = 0; i < 12; ++i) {
    const std::string& k = keys[r.below(keys.size())];
    Model::const_iterator f = m.find(k);
    bool in = f != m.end(), at = true, cat = true, idx = true;
    long a = 0, b = 0, c = 0;
    try { a = t.at(k).get(); } catch (const std::out_of_range& e) { at = false; VF_CHECK(!strcmp(e.what(), "invalid access: key does not exist"), e.what()); }
    try { b = ct.at(k).get(); } catch (const eni::OutOfRange<eni::InvalidStringMapKey>&) { cat = false; }
    try { c = ct[k].get(); } catch (const std::out_of_range&) { idx = false; }
    VF_CHECK(at == in && cat == in && idx == in, op << ": access to " << show(k) << " (" << k.size() << " bytes), present: " << in);
    VF_CHECK((t.find(k) != t.end()) == in && (ct.find(k) != ct.end()) == in, op << ": find " << show(k));
    if (in) {
      VF_CHECK(a == f->second && b == a && c == a, op << ": value of " << show(k));
      VF_CHECK(t.find(k)->key() == k, op << ": find gave another key");
    }
    stats().add("lookups");
    VF_CHECK(t.size() == m.size(), op << ": a lookup changed the size");
  }
}

static std::string strange_key(Rng& r, const std::vector<std::string>& keys) {
  static const size_t lens[] = {0, 1, 2, 7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096,
                                65534, 65535, 65536, 65537, 65536 + 300, 131072, 200000};
  switch (r.below(11)) {
    case 10: { unsigned n = 1 + (unsigned)r.below(r.chance(1, 3) ? 20 : 4); return sdbm_twin(r.next(), n); }   // the same hash and the same length
    case 9: {   // long, with strange bytes at a few places
      std::string s(lens[r.below(r.chance(1, 6) ? 33 : 26)], 'n');
      if (!s.empty()) for (uint64_t n = 1 + r.below(3); n; --n) s[r.chance(1, 3) ? s.size() - 1 : r.below(s.size())] = r.chance(2, 3) ? '\0' : (char)(0x80 + r.below(128));
      return s;
    }
    case 0: return std::string(lens[r.below(26)], (char)r.below(256));
    case 1: return std::string(lens[r.below(r.chance(1, 20) ? 33 : 26)], 'x') + std::to_string(r.below(3));
    case 2: return std::string(r.below(300), '\0');                           // all of them hash to 0
    case 3: return std::string(r.below(300), '\0') + "a";                     // the same hash
    case 4: { std::string s; for (uint64_t n = r.below(20); n; --n) s += (char)r.below(256); return s; }
    case 5: if (!keys.empty()) { std::string s = keys[r.below(keys.size())]; if (!s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); return s; } return "";
    case 6: if (!keys.empty()) { std::string s = keys[r.below(keys.size())]; return s.substr(0, r.below(s.size() + 1)); } return "a";
    case 7: if (!keys.empty()) { std::string s = keys[r.below(keys.size())]; if (s.size() < 70000) { s += (char)(r.chance(1, 2) ? 0 : r.below(256)); } return s; } return "b";
    default: return std::string("key") + '\0' + std::to_string(r.below(50));
  }
}

// Keys so long that a length kept in few bits is another key's length.
static void vast_keys(unsigned bits) {
  Map t;
  std::string longer(((size_t)1 << bits) + 44, 'q');
  const std::string shorter(44, 'q');
  t[shorter] = Tracked(1);
  VF_CHECK(t.find(longer) == t.end(), "a key of 2^" << bits << "+44 bytes is found after one of 44 bytes was inserted");
  t[longer] = Tracked(2);
  VF_CHECK(t.size() == 2, "size() is " << t.size() << " with two keys");
  VF_CHECK(t.at(shorter).get() == 1 && t.at(longer).get() == 2, "the values of the keys of 44 and of 2^" << bits << "+44 bytes are mixed up");
  size_t seen = 0;
  for (Map::iterator i = t.begin(); i != t.end(); ++i) { std::string k = i->key(); VF_CHECK(k == shorter || k == longer, "an entry's key has " << k.size() << " bytes"); ++seen; }
  VF_CHECK(seen == 2, "iteration gave " << seen << " entries");
  longer[longer.size() - 1] = 'r';
  VF_CHECK(t.find(longer) == t.end(), "a key of 2^" << bits << "+44 bytes is found though its last byte differs");
  longer[longer.size() - 1] = 'q';
  VF_CHECK(t.erase(longer) && t.find(longer) == t.end() && t.find(shorter) != t.end() && t.size() == 1, "erasing the longer key");
  stats().state(mix(bits, 44));
  stats().add("operations", 9);
  stats().max("max_key_length", longer.size());
}

static void strmap(Rng& r, uint64_t c, long size) {
  if (c == 21 && size > 0) { for (unsigned b = 22; b <= 26 && b <= (unsigned)size; b += 2) vast_keys(b); return; }
  if (c == 43 && size > 30) { vast_keys(31); return; }
  if (c == 65 && size > 30) { vast_keys(32); return; }
  std::vector<std::string> keys;
  size_t nk = r.chance(1, 4) ? 4 : 5 + r.below(200);
  while (keys.size() < nk) keys.push_back(strange_key(r, keys));
  if (c % 8 == 0) {
    // lengths that differ by multiples of 2^8 and 2^16 only
    std::string base(300, 'q');
    keys.push_back(base.substr(0, 44)); keys.push_back(std::string(44 + 256, 'q'));
    keys.push_back(std::string(100, 'q')); keys.push_back(std::string(65536 + 100, 'q')); keys.push_back(std::string(131072 + 100, 'q'));
  }
  if (c % 64 == 5) { keys.push_back(std::string(1 << 20, 'm')); keys.push_back(std::string((1 << 20) + 65536, 'm')); }
  Map a, b(r.below(40)), d(0);
  Map* t[3] = {&a, &b, &d};
  Model m[3];
  unsigned steps = 150 + (unsigned)r.below(300);
  for (unsigned i = 0; i < steps; ++i) {
    size_t x = r.chance(2, 3) ? 0 : r.below(3), y = r.below(3);
    const std::string& k = keys[r.below(keys.size())];
    const char* op = "?";
    switch (r.below(14)) {
      case 0: case 1: case 2: case 3: case 4: {
        op = "m[k] = v";
        long v = 1 + (long)r.below(100000);
        Tracked& ref = (*t[x])[k];
        VF_CHECK(ref.get() == (m[x].count(k) ? m[x][k] : 0), "m[" << show(k) << "] gave value " << ref.get());
        ref = Tracked(v);
        m[x][k] = v;
        say("[" + show(k) + "]=");
        break;
      }
      case 5: op = "m[k]"; { bool in = m[x].count(k); long v = (*t[x])[k].get(); VF_CHECK(v == (in ? m[x][k] : 0), op); m[x][k] = v; } say("[" + show(k) + "]"); break;
      case 6: case 7: case 8: { op = "erase"; bool in = m[x].erase(k); VF_CHECK(t[x]->erase(k) == in, "erase(" << show(k) << ")"); say("e" + show(k)); break; }
      case 9: if (r.chance(1, 3)) { op = "copy assignment"; *t[x] = *t[y]; m[x] = m[y]; say("="); } break;
      case 10: if (r.chance(1, 3)) { op = "copy construction"; Map n(*t[y]); map_compare(n, m[y], keys, r, op); n[k] = Tracked(5); Model mm = m[y]; mm[k] = 5; map_compare(n, mm, keys, r, op); map_compare(*t[y], m[y], keys, r, "copied from"); } break;
      case 11: if (m[x].count(k)) { op = "at(k) = v"; t[x]->at(k) = Tracked(9); m[x][k] = 9; } break;
      case 12: if (m[x].count(k)) { op = "find(k)->value() = v"; t[x]->find(k)->value() = Tracked(11); m[x][k] = 11; } break;
      case 13: if (r.chance(1, 3)) { op = "assignment from a temporary"; *t[x] = Map(*t[y]); m[x] = m[y]; say("=tmp"); } break;
    }
    if (r.chance(1, 4) || i + 1 == steps) map_compare(*t[x], m[x], keys, r, op);
    uint64_t h = 7;
    h = mix(mix(h, m[x].size()), hash_str(k));
    stats().state(h);
    stats().add("operations");
  }
  stats().max("max_keys", nk);
  for (size_t i = 0; i < keys.size(); ++i) stats().max("max_key_length", keys[i].size());
}

#endif

template<class T, class H> static void drive(Rng& r, unsigned space, unsigned steps, unsigned big) {
  { Driver<T, H> d(r, space); if (big) d.big(big); else d.run(steps); }
  VF_CHECK(Tracked::live().empty(), Tracked::live().size() << " values were not destroyed");
  VF_CHECK(Arena::blocks().empty(), Arena::blocks().size() << " blocks of the table's own allocator were not given back");
}

// The instantiations are compiled in parallel, as -DPART=0 .. 4; PART 5, with an entry type and an
// allocator of its own, is a program by itself (hashown.cpp).
void table_a(int which, Rng& r, unsigned space, unsigned steps, unsigned big);
void table_b(int which, Rng& r, unsigned space, unsigned steps, unsigned big);
void table_c(int which, Rng& r, unsigned space, unsigned steps, unsigned big);
void table_d(int which, Rng& r, unsigned space, unsigned steps, unsigned big);

using namespace eni;
using namespace eni::internal;

#if PART == 1
void table_a(int which, Rng& r, unsigned space, unsigned steps, unsigned big) {
  switch (which) {
    case 0: drive<HashTable<int, Tracked, IdHash>, IdHash>(r, space, steps, big); break;
    case 1: drive<HashTable<int, Tracked, ConstHash>, ConstHash>(r, std::min(space, 200u), steps, big); break;
    case 2: drive<HashTable<int, Tracked, Mod7Hash>, Mod7Hash>(r, std::min(space, 1000u), steps, big); break;
  }
}
#elif PART == 2
void table_b(int which, Rng& r, unsigned space, unsigned steps, unsigned big) {
  switch (which) {
    case 3: drive<HashTable<int, Tracked, MulHash>, MulHash>(r, space, steps, big); break;
    case 4: drive<HashTable<int, Tracked, StepHash>, StepHash>(r, space, steps, big); break;
    case 5: drive<HashTable<Pair, Tracked, PairHash>, PairHash>(r, std::min(space, 1000u), steps, big); break;
  }
}
#elif PART == 3
void table_c(int which, Rng& r, unsigned space, unsigned steps, unsigned big) {
  switch (which) {
    case 6: drive<StringHashTable<Tracked>, StringHasher<ELF> >(r, space, steps, big); break;
    case 7: drive<StringHashTable<Tracked, StringHasher<SDBM> >, StringHasher<SDBM> >(r, space, steps, big); break;
    case 8: drive<StringHashTable<Tracked, LenHash>, LenHash>(r, std::min(space, 200u), steps, big); break;
  }
}
#elif PART == 4
void table_d(int which, Rng& r, unsigned space, unsigned steps, unsigned big) {
  switch (which) {
    case 9: drive<StringHashTable<Tracked, FirstHash>, FirstHash>(r, std::min(space, 1000u), steps, big); break;
    default: drive<StringHashTable<Tracked, StringHasher<FNV> >, StringHasher<FNV> >(r, space, steps, big); break;
  }
}
#elif PART == 5
bool g_values, g_structure, g_iterate, g_life;

static void one(Rng& r, uint64_t c, const Args& a) {
  g_values = g_structure = g_iterate = g_life = true;
  static const unsigned spaces[] = {3, 8, 20, 60, 200, 1000};
  unsigned space = spaces[r.below(6)], steps = 100 + (unsigned)r.below(a.size ? a.size : 600);
  switch (c % 4) {
    case 0: drive<HashTable<int, Tracked, IdHash, OwnEntry, OwnAlloc>, IdHash>(r, space, steps, 0); break;
    case 1: drive<HashTable<std::string, Tracked, LenHash, OwnEntry, OwnAlloc>, LenHash>(r, std::min(space, 200u), steps, 0); break;
    case 2: drive<HashTable<int, Tracked, Mod7Hash, Entry, OwnAlloc>, Mod7Hash>(r, space, steps, 0); break;
    default: drive<HashTable<Pair, Tracked, PairHash, OwnEntry>, PairHash>(r, space, steps, 0); break;
  }
  Arena::used() = false;
  if (c < 3) sample(trace().substr(0, 250));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
#else
bool g_values, g_structure, g_iterate, g_life;

static void one(Rng& r, uint64_t c, const Args& a) {
  bool all = a.mode == "all";
  g_values = all || a.mode == "map" || a.mode == "big";
  g_structure = all || a.mode == "structure" || a.mode == "big";
  g_iterate = all || a.mode == "iterate";
  g_life = all;
  if (a.mode == "strmap" || (all && c % 4 == 3)) {
    strmap(r, c, a.size);
    VF_CHECK(Tracked::live().empty(), Tracked::live().size() << " values were not destroyed");
    if (c < 2) sample("StringMap: " + trace().substr(0, 200));
    return;
  }
  static const unsigned spaces[] = {3, 8, 20, 60, 200, 1000, 20000};
  unsigned space = spaces[r.below(7)], steps = 100 + (unsigned)r.below(a.size ? a.size : 600);
  unsigned big = a.mode == "big" ? (c % 4 == 0 ? 1 + (unsigned)r.below(30) : c % 8 == 5 ? std::max(160000u, (unsigned)a.size * 3 / 2) + (unsigned)r.below(50000) : (unsigned)(a.size ? a.size : 20000) / (1 + r.below(40))) : 0;
  int which = big ? (c & 1 ? 3 : 6) : (int)(c % 11);
  if (which < 3) table_a(which, r, space, steps, big);
  else if (which < 6) table_b(which, r, space, steps, big);
  else if (which < 9) table_c(which, r, space, steps, big);
  else table_d(which, r, space, steps, big);
  if (c < 3) sample(trace().substr(0, 250));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
#endif
