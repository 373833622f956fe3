// eni::Vector against std::vector, under random histories with aliasing arguments.
//   --mode vec    contents, sizes, capacity, iterators
//   --mode life   the elements alive after each step, also when copies throw
//   --mode range  accesses out of bounds
//   --mode all
#include "tracked.h"
#include <adt/Vector.h>

using namespace vf;
using eni::Vector;

struct Pod { long a[5]; };
static void say(const std::string& s) { trace() += s; trace() += ' '; }
static std::string num(uint64_t n) { return std::to_string(n); }

static void make(long x, Tracked& t) { t = Tracked(x); }
static void make(long x, std::string& t) { t = (x % 3 ? "" : std::string(30, 'v')) + std::to_string(x); }
static void make(long x, unsigned char& t) { t = (unsigned char)x; }
static void make(long x, Pod& t) { for (int i = 0; i < 5; ++i) t.a[i] = x * (i + 1); }
static long val(const Tracked& t) { return t.get(); }
static long val(const std::string& t) {
  if (t.empty()) return 0;
  size_t p = t.find_first_not_of('v');
  VF_CHECK(p == 0 || p == 30, "a string element is damaged");
  return strtol(t.c_str() + p, 0, 10);
}
static long val(const unsigned char& t) { return t; }
static long val(const Pod& t) { VF_CHECK(t.a[4] == 5 * t.a[0] && t.a[2] == 3 * t.a[0], "a POD element is damaged"); return t.a[0]; }

static bool g_values, g_life, g_range;
static const bool g_tracked(const Tracked*) { return true; }
template<class T> static bool g_tracked(const T*) { return false; }

template<class T>
struct Driver {
  typedef Vector<T> V;
  typedef std::vector<long> M;
  Rng& r;
  V* v[3];
  M m[3];
  size_t limit;
  unsigned calm;

  Driver(Rng& rng) : r(rng), limit(r.chance(1, 6) ? 3000 : 60), calm(r.chance(1, 3) ? 1 : r.chance(1, 2) ? 8 : 60) { for (int i = 0; i < 3; ++i) v[i] = new V(); }
  ~Driver() { for (int i = 0; i < 3; ++i) delete v[i]; }

  T mk(long x) { T t = T(); make(x, t); return t; }
  long norm(long x) { return val(mk(x)); }

  void same(int x, const char* op) {
    V& a = *v[x];
    const V& c = a;
    const M& e = m[x];
    VF_CHECK(a.size() == e.size() && a.empty() == e.empty() && c.size() == e.size(), op << ": size " << a.size() << ", expected " << e.size());
    VF_CHECK(a.capacity() >= a.size(), op << ": capacity " << a.capacity() << " below the size");
    for (size_t i = 0; i < e.size(); ++i) {
      VF_CHECK(val(a[i]) == e[i], op << ": element " << i << " of " << e.size() << " is " << val(a[i]) << ", expected " << e[i]);
      VF_CHECK(&c[i] == &a[i] && &a.at(i) == &a[i] && &c.at(i) == &a[i] && a.data() + i == &a[i], op << ": the ways to element " << i << " differ");
    }
    size_t n = 0;
    for (typename V::iterator it = a.begin(); it != a.end(); ++it, ++n) VF_CHECK(n < e.size() && &*it == &a[n], op << ": iteration");
    VF_CHECK(n == e.size(), op << ": iteration gave " << n << " of " << e.size());
    n = 0;
    for (const T& t : c) { VF_CHECK(n < e.size() && val(t) == e[n], op << ": const iteration"); ++n; }
    VF_CHECK(n == e.size(), op << ": const iteration");
    if (!e.empty()) VF_CHECK(&a.front() == &a[0] && &a.back() == &a[e.size() - 1], op << ": front and back");
    stats().add("comparisons");
    stats().add("elements_compared", e.size());
    uint64_t h = 3;
    for (size_t i = 0; i < e.size(); ++i) h = mix(h, e[i]);
    stats().state(h);
  }

  void alive(const char* op) {
    if (!g_tracked((T*)0)) return;
    size_t n = 0;
    for (int i = 0; i < 3; ++i) {
      n += v[i]->size();
      for (size_t k = 0; k < v[i]->size(); ++k) val((*v[i])[k]);
    }
    VF_CHECK(Tracked::live().size() == n, op << ": " << Tracked::live().size() << " elements alive, " << n << " held");
    stats().add("lifetime_checks");
    stats().state(mix(mix(n, Tracked::made()), 5));
  }

  template<class F> void init_list(F f) {
    long x = 1 + (long)r.below(90);
    switch (r.below(5)) {
      case 0: f(std::initializer_list<T>{}, M{}); break;
      case 1: f(std::initializer_list<T>{mk(x)}, M{norm(x)}); break;
      case 2: f(std::initializer_list<T>{mk(x), mk(x + 1)}, M{norm(x), norm(x + 1)}); break;
      case 3: f(std::initializer_list<T>{mk(x), mk(x + 1), mk(x + 2), mk(3)}, M{norm(x), norm(x + 1), norm(x + 2), norm(3)}); break;
      default: f(std::initializer_list<T>{mk(x), mk(x), mk(5), mk(6), mk(7), mk(8), mk(9)}, M{norm(x), norm(x), 5, 6, 7, 8, 9}); break;
    }
  }

  void range_errors(int x) {
    V& a = *v[x];
    const V& c = a;
    static const size_t far[] = {0, 1, 2, 7, (size_t)-1, (size_t)-2, (size_t)1 << 31, (size_t)1 << 32, (size_t)1 << 63, ((size_t)1 << 32) - 1};
    size_t n = a.size(), d = far[r.below(10)], bad = d > ~(size_t)0 - n ? d : n + d, cap = a.capacity();
    T* data = a.data();
    const T one = mk(1);
    int what = (int)r.below(16);
    bool threw = false;
    const char* msg = "invalid access: index out of bound";
    size_t past = bad == (size_t)-1 ? bad : bad + 1;   // insertion is allowed at n
    try {
      switch (what) {
        case 0: a.at(bad); break;
        case 1: c.at(bad); break;
        case 2: a.insert(past, one); break;
        case 3: a.insert(past, (size_t)r.below(3), one); break;
        case 4: a.insert(past, c.begin(), c.end()); break;
        case 5: a.insert(past, std::initializer_list<T>{one, one}); break;
        case 6: a.erase(bad); break;
        case 7: a.erase((size_t)r.below(n + 1), past); break;
        case 8: a.erase(past, past); break;
        case 9: { size_t f = 1 + r.below(n + 5); a.erase(f, f - 1); break; }
        case 10: a.erase(bad, past); break;
        case 11: msg = "invalid reserve: exceed maximum size"; a.reserve(a.max_size() + 1); break;
        case 12: msg = "invalid reserve: exceed maximum size"; a.resize(a.max_size() + 1 + r.below(1000)); break;
        case 13: msg = "invalid reserve: exceed maximum size"; a.insert((size_t)r.below(n + 1), n ? ~(size_t)0 - r.below(n) : a.max_size() + 1, one); break;
        case 14: msg = "invalid reserve: exceed maximum size"; a.reserve((size_t)-1); break;
        case 15: msg = "invalid reserve: exceed maximum size"; { V t((size_t)-1 - r.below(5), one); } break;
      }
    } catch (const std::length_error& e) {
      threw = true;
      VF_CHECK(what >= 11 && !strcmp(e.what(), msg), "access " << what << " threw length_error '" << e.what() << "'");
      VF_CHECK(dynamic_cast<const eni::LengthError<eni::InvalidVectorSize>*>(&e), "not eni's exception");
    } catch (const std::out_of_range& e) {
      threw = true;
      VF_CHECK(what < 11 && !strcmp(e.what(), msg), "access " << what << " threw out_of_range '" << e.what() << "'");
      VF_CHECK(dynamic_cast<const eni::OutOfRange<eni::InvalidVectorIndex>*>(&e), "not eni's exception");
    }
    VF_CHECK(threw, "access " << what << " at " << bad << " of " << n << " did not throw");
    VF_CHECK(a.size() == n && a.data() == data && a.capacity() == cap, "access " << what << " changed the vector");
    stats().add("refused");
    stats().state(mix(mix(mix(what, n), bad), 9));
  }

  void step() {
    int x = r.chance(2, 3) ? 0 : (int)r.below(3), y = (int)r.below(3);
    V& a = *v[x];
    const V& ca = a;
    M& e = m[x];
    size_t n = e.size();
    size_t at = r.below(n + 1);
    long val1 = 1 + (long)r.below(1000);
    // an argument that lies in the vector itself, or not
    bool own = n && r.chance(1, 2);
    size_t src = own ? r.below(n) : 0;
    long ev = own ? e[src] : norm(val1);
    T tmp = mk(val1);
    const T* arg = own ? &ca[src] : &tmp;
    size_t cnt = r.below(r.chance(1, 4) ? 20 : 4);
    if (n > limit) cnt = 0;
    size_t cap = a.capacity();
    T* data = a.data();
    bool inplace = false;     // must not have moved the elements
    const char* op = "?";
    size_t first = n ? r.below(n) : 0, last = n ? first + r.below(n - first + 1) : 0;
    if (last - first > limit) last = first + limit;
    M part(e.begin() + first, e.begin() + last);
    M before = e;
    bool throwing = g_life && g_tracked((T*)0) && r.chance(1, 3);
    if (throwing) Tracked::countdown() = (long)r.below(r.chance(1, 2) ? 6 : 2 * n + 12);
    std::string s = "(" + num(n) + "," + num(at) + "," + num(cnt) + (own ? ",own" + num(src) : "") + ")";
    try {
      uint64_t what = r.below(n > limit ? 46 : 37);
      if (what >= 15 && what <= 30 && what != 29 && !r.chance(1, calm)) what = r.below(n > limit ? 4 : 15);
      switch (what) {
        case 0: case 1: case 2: op = "push_back"; say(op + s); inplace = n + 1 <= cap; a.push_back(*arg); e.push_back(ev); break;
        case 3: op = "emplace_back"; say(op + s); inplace = n + 1 <= cap; a.emplace_back(*arg); e.push_back(ev); break;
        case 4: if (n) { op = "pop_back"; say(op); inplace = true; T t = a.pop_back(); long got = val(t), want = e.back(); e.pop_back(); VF_CHECK(got == want, "pop_back gave " << got); } break;
        case 5: case 6: op = "insert(i, x)"; say(op + s); inplace = n + 1 <= cap; a.insert(at, *arg); e.insert(e.begin() + at, ev); break;
        case 7: op = "insert(i, n, x)"; say(op + s); inplace = n + cnt <= cap; a.insert(at, cnt, *arg); e.insert(e.begin() + at, cnt, ev); break;
        case 8: { op = "insert(it, x)"; say(op + s); inplace = n + 1 <= cap; typename V::iterator it = a.insert(a.begin() + at, *arg); e.insert(e.begin() + at, ev); VF_CHECK(it - a.begin() == (ptrdiff_t)at, op << " returned a wrong position"); break; }
        case 9: { op = "insert(it, n, x)"; say(op + s); typename V::iterator it = a.insert(a.begin() + at, cnt, *arg); e.insert(e.begin() + at, cnt, ev); VF_CHECK(it - a.begin() == (ptrdiff_t)at, op << " returned a wrong position"); break; }
        case 10: { op = "insert(it, own range)"; say(op + s); typename V::iterator it = a.insert(a.begin() + at, ca.begin() + first, ca.begin() + last); e.insert(e.begin() + at, part.begin(), part.end()); VF_CHECK(it - a.begin() == (ptrdiff_t)at, op << " returned a wrong position"); break; }
        case 11: op = "insert(i, own range)"; say(op + s); a.insert(at, ca.begin() + first, ca.begin() + last); e.insert(e.begin() + at, part.begin(), part.end()); break;
        case 12: if (m[y].size() <= limit) { op = "insert(i, other range)"; say(op + s); const V& cb = *v[y]; M o = m[y]; a.insert(at, cb.begin(), cb.end()); e.insert(e.begin() + at, o.begin(), o.end()); } break;
        case 13: op = "insert(i, list)"; say(op + s); init_list([&](std::initializer_list<T> l, M mm) { a.insert(at, l); e.insert(e.begin() + at, mm.begin(), mm.end()); }); break;
        case 14: op = "insert(it, list)"; say(op + s); init_list([&](std::initializer_list<T> l, M mm) { typename V::iterator it = a.insert(a.begin() + at, l); e.insert(e.begin() + at, mm.begin(), mm.end()); VF_CHECK(it - a.begin() == (ptrdiff_t)at, op << " returned a wrong position"); }); break;
        case 15: op = "resize(n)"; say(op + s); { size_t k = r.below(n + 8); inplace = k <= cap; a.resize(k); e.resize(k, 0); } break;
        case 16: op = "resize(n, x)"; say(op + s); { size_t k = r.chance(1, 2) ? n + cnt : r.below(n + 1); inplace = k <= cap; a.resize(k, *arg); e.resize(k, ev); } break;
        case 17: op = "assign(n, x)"; say(op + s); a.assign(cnt, *arg); e.assign(cnt, ev); break;
        case 18: op = "assign(own range)"; say(op + s); a.assign(ca.begin() + first, ca.begin() + last); e = part; break;
        case 19: op = "assign(other range)"; say(op + s); { const V& cb = *v[y]; M o = m[y]; a.assign(cb.begin(), cb.end()); e = o; } break;
        case 20: op = "assign(list)"; say(op + s); init_list([&](std::initializer_list<T> l, M mm) { a.assign(l); e = mm; }); break;
        case 21: op = "= list"; say(op + s); init_list([&](std::initializer_list<T> l, M mm) { a = l; e = mm; }); break;
        case 22: op = x == y ? "self =" : "="; say(op + s); a = *v[y]; e = M(m[y]); break;
        case 23: op = "swap"; say(op + s); a.swap(*v[y]); if (x != y) m[x].swap(m[y]); break;
        case 24: { op = "copy-construct"; say(op); V* c = new V(*v[y]); M o = m[y]; delete v[x]; v[x] = c; m[x] = o; break; }
        case 25: { op = "construct(n, x)"; say(op + s); V* c = new V(cnt, *arg); delete v[x]; v[x] = c; m[x].assign(cnt, ev); break; }
        case 26: { op = "construct(n)"; say(op + s); V* c = new V(cnt); delete v[x]; v[x] = c; m[x].assign(cnt, 0); break; }
        case 27: { op = "construct(std::vector)"; say(op + s); std::vector<T> o; for (size_t i = 0; i < part.size(); ++i) o.push_back(mk(part[i])); V* c = new V(o); delete v[x]; v[x] = c; m[x] = part; break; }
        case 28: op = "construct(list)"; say(op + s); init_list([&](std::initializer_list<T> l, M mm) { V* c = new V(l); delete v[x]; v[x] = c; m[x] = mm; }); break;
        case 29: op = "reserve"; say(op + s); { size_t k = r.below(2 * cap + 10); inplace = k <= cap; a.reserve(k); VF_CHECK(a.capacity() >= k, "reserve(" << k << ") left capacity " << a.capacity()); } break;
        case 30: if (r.chance(1, 4)) { op = "clear"; say(op); a.clear(); e.clear(); } break;
        case 31: op = "shrink_to_fit"; say(op); a.shrink_to_fit(); break;
        case 32: if (n) { op = "write"; say(op); switch (r.below(4)) { case 0: a[src] = *arg; e[src] = ev; break; case 1: a.at(src) = *arg; e[src] = ev; break; case 2: *(a.begin() + src) = *arg; e[src] = ev; break; default: a.back() = *arg; e.back() = ev; } } break;
        case 33: if (n && (size_t)src < n) { op = "erase(i)"; say(op + s); inplace = true; a.erase(src); e.erase(e.begin() + src); } break;
        default:
          if (first < last) {
            if (r.chance(1, 2)) { op = "erase(i, j)"; say(op + s); inplace = true; a.erase(first, last); e.erase(e.begin() + first, e.begin() + last); }
            else { op = "erase(it, it)"; say(op + s); typename V::iterator it = a.erase(a.begin() + first, a.begin() + last); e.erase(e.begin() + first, e.begin() + last); VF_CHECK(it - a.begin() == (ptrdiff_t)first, op << " returned a wrong position"); }
          } else if (n) { op = "erase(it)"; say(op + s); typename V::iterator it = a.erase(a.begin() + src); e.erase(e.begin() + src); VF_CHECK(it - a.begin() == (ptrdiff_t)src, op << " returned a wrong position"); }
      }
      Tracked::countdown() = -1;
    } catch (const CopyFailed&) {
      // whatever the vectors hold now is valid; take it as the new state
      Tracked::countdown() = -1;
      say("throws");
      stats().add("throws");
      for (int i = 0; i < 3; ++i) {
        m[i].clear();
        VF_CHECK(v[i]->size() <= v[i]->capacity(), op << " that threw: size above the capacity");
        for (size_t k = 0; k < v[i]->size(); ++k) m[i].push_back(val((*v[i])[k]));
      }
      inplace = false;
    }
    if (throwing) stats().add("armed");
    if (inplace) VF_CHECK(v[x]->data() == data && v[x]->capacity() == cap, op << ": moved the elements though the capacity of " << cap << " was enough");
    {
      T gone(tmp);
      make(0, tmp);   // what was inserted is independent of the argument
    }
    stats().add("operations");
    stats().add(std::string("op ") + op);
    stats().max("max_size", m[x].size());
    if (g_values) { same(x, op); if (y != x) same(y, op); }
  }

  // Appending takes few reallocations.
  void growth() {
    V a;
    size_t moves = 0, n = !g_tracked((T*)0) && r.chance(1, 20) ? 65000 + r.below(100000) : 200 + r.below(5000);
    T* data = a.data();
    T x = mk(7);
    for (size_t i = 0; i < n; ++i) {
      if (i & 1) a.push_back(x); else a.emplace_back(x);
      if (a.data() != data) { ++moves; data = a.data(); }
    }
    VF_CHECK(a.size() == n && moves <= 40, "appending " << n << " elements moved them " << moves << " times");
    for (size_t i = 0; i < n; ++i) VF_CHECK(val(a[i]) == 7, "appended element " << i);
    stats().add("growths");
  }

  void run(unsigned steps) {
    if (g_values) growth();
    for (unsigned i = 0; i < steps; ++i) {
      step();
      if (g_life) alive("step");
      if (g_range && (g_range != g_values || r.chance(1, 4))) range_errors((int)r.below(3));
    }
    for (int i = 0; i < 3; ++i) same(i, "end");
  }
};

// Elements that own vectors of their own kind: the argument may be owned by an element.
struct Node { long id; Vector<Node> kids; Node() : id(0) {} };
struct MNode { long id; std::vector<MNode> kids; };
static void same_node(const Vector<Node>& v, const std::vector<MNode>& m, int depth) {
  VF_CHECK(v.size() == m.size(), "nested: size " << v.size() << ", expected " << m.size() << " at depth " << depth);
  for (size_t i = 0; i < m.size(); ++i) {
    VF_CHECK(v[i].id == m[i].id, "nested: element " << i << " is " << v[i].id << ", expected " << m[i].id);
    same_node(v[i].kids, m[i].kids, depth + 1);
  }
}
static size_t count(const std::vector<MNode>& m) { size_t n = m.size(); for (size_t i = 0; i < m.size(); ++i) n += count(m[i].kids); return n; }

static void nested(Rng& r, unsigned steps) {
  Vector<Node> v;
  std::vector<MNode> m;
  for (unsigned s = 0; s < steps; ++s) {
    // a random place
    Vector<Node>* p = &v; std::vector<MNode>* q = &m;
    Vector<Node>* pp = &v; std::vector<MNode>* qq = &m;
    while (!q->empty() && r.chance(2, 3)) { size_t i = r.below(q->size()); pp = p; qq = q; p = &(*p)[i].kids; q = &(*q)[i].kids; }
    uint64_t c = r.below(12);
    if (count(m) > 300) c = 4 + r.below(2);
    switch (c) {
      case 0: case 1: case 2: { Node n; n.id = s; MNode mn; mn.id = s; p->push_back(n); q->push_back(mn); say("push"); break; }
      case 3: if (count(*q) < 60) { Node n; n.id = s; n.kids = v; MNode mn; mn.id = s; mn.kids = m; p->push_back(n); q->push_back(mn); say("wrap"); } break;
      case 4: { std::vector<MNode> t = *q; *pp = *p; *qq = t; say("parent=child"); break; }
      case 5: { std::vector<MNode> t = *q; v = *p; m = t; say("root=inner"); break; }
      case 6: if (count(*qq) < 60) { std::vector<MNode> t = *qq; *p = *pp; *q = t; say("child=parent"); } break;
      case 7: if (!q->empty()) { size_t i = r.below(q->size()); MNode t = (*q)[i]; p->push_back((*p)[i]); q->push_back(t); say("push own"); } break;
      case 8: if (!q->empty()) { size_t i = r.below(q->size()); p->erase(i); q->erase(q->begin() + i); say("erase"); } break;
      case 9: if (!qq->empty()) { // a range owned by an element of the destination
        const Vector<Node>& cp = *p; std::vector<MNode> t = *q; size_t at = r.below(qq->size() + 1);
        pp->insert(at, cp.begin(), cp.end()); qq->insert(qq->begin() + at, t.begin(), t.end()); say("insert inner"); } break;
      case 10: { const Vector<Node>& cp = *p; std::vector<MNode> t = *q; pp->assign(cp.begin(), cp.end()); *qq = t; say("assign inner"); break; }
      case 11: if (!q->empty()) { MNode t = q->back(); q->pop_back(); Node n = p->pop_back(); VF_CHECK(n.id == t.id, "nested pop_back"); same_node(n.kids, t.kids, 1); say("pop"); } break;
    }
    same_node(v, m, 0);
    stats().add("nested_operations");
    stats().state(mix(mix(count(m), s), c));
  }
}

template<class T> static void drive(Rng& r, unsigned steps) {
  { Driver<T> d(r); d.run(steps); }
  VF_CHECK(Tracked::live().empty(), Tracked::live().size() << " elements were not destroyed");
}

static void one(Rng& r, uint64_t c, const Args& a) {
  bool all = a.mode == "all";
  g_values = all || a.mode == "vec";
  g_life = all || a.mode == "life";
  g_range = all || a.mode == "range";
  unsigned steps = 50 + (unsigned)r.below(a.size ? a.size : 200);
  if (a.mode == "life") { drive<Tracked>(r, steps); }
  else switch (c % 5) {
    case 0: drive<Tracked>(r, steps); break;
    case 1: drive<std::string>(r, steps); break;
    case 2: drive<unsigned char>(r, steps); break;
    case 3: drive<Pod>(r, steps); break;
    default: if (g_range && !all) drive<Tracked>(r, steps); else nested(r, steps / 2);
  }
  if (c < 3) sample(trace().substr(0, 250));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
