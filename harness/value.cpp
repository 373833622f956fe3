// json::Value, Array and Object against an independent tree, under random
// histories of copies, moves, assignments (also from parts of the target),
// delegations and writes.
#include "common.h"
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>

using namespace vf;
using json::Array;
using json::Object;
using json::Value;
typedef boost::multiprecision::cpp_int Big;

struct Node {
  json::Type t;
  bool b;
  Big i;
  std::string s;
  std::vector<Node> a;
  std::map<std::string, Node> o;
  Node() : t(json::UNDEF), b(false) {}
};

static void say(const std::string& s) { trace() += s; trace() += ' '; }

static size_t count(const Node& n) {
  size_t c = 1;
  for (size_t i = 0; i < n.a.size(); ++i) c += count(n.a[i]);
  for (std::map<std::string, Node>::const_iterator it = n.o.begin(); it != n.o.end(); ++it) c += count(it->second);
  return c;
}
static size_t depth(const Node& n) {
  size_t d = 0;
  for (size_t i = 0; i < n.a.size(); ++i) d = std::max(d, depth(n.a[i]));
  for (std::map<std::string, Node>::const_iterator it = n.o.begin(); it != n.o.end(); ++it) d = std::max(d, depth(it->second));
  return d + 1;
}

static uint64_t same(const Value& v, const Node& n, const char* op);
static uint64_t same_array(const Array& a, const Node& n, const char* op) {
  VF_CHECK(a.isArray() && a.type() == json::ARRAY, op << ": an array of type " << a.type());
  VF_CHECK(a.size() == n.a.size(), op << ": array of " << a.size() << ", expected " << n.a.size());
  uint64_t h = 11;
  for (size_t i = 0; i < n.a.size(); ++i) {
    h = mix(h, same(a[(int)i], n.a[i], op));
    VF_CHECK(&a[(int)i] == &a.at(i), op << ": a[i] is not a.at(i)");
  }
  return h;
}
static uint64_t same_object(const Object& o, const Node& n, const char* op) {
  VF_CHECK(o.isObject() && o.type() == json::OBJECT, op << ": an object of type " << o.type());
  VF_CHECK(o.size() == n.o.size() && o.empty() == n.o.empty(), op << ": object of " << o.size() << ", expected " << n.o.size());
  uint64_t h = 12;
  for (std::map<std::string, Node>::const_iterator it = n.o.begin(); it != n.o.end(); ++it) {
    VF_CHECK(o.find(it->first) != o.end(), op << ": lost key " << esc(it->first));
    h = mix(h, same(o[it->first], it->second, op));
  }
  size_t k = 0;
  for (Object::const_iterator it = o.begin(); it != o.end(); ++it, ++k) VF_CHECK(n.o.count(it->key()), op << ": foreign key " << esc(it->key()));
  VF_CHECK(k == n.o.size(), op << ": iteration gave " << k << " of " << n.o.size());
  return h;
}
static uint64_t same(const Value& v, const Node& n, const char* op) {
  VF_CHECK(v.type() == n.t, op << ": a value of type " << v.type() << ", expected " << n.t);
  VF_CHECK(v.isInteger() == (n.t == json::INT) && v.isBoolean() == (n.t == json::BOOL) && v.isString() == (n.t == json::STRING) &&
           v.isObject() == (n.t == json::OBJECT) && v.isArray() == (n.t == json::ARRAY) && v.isUndefined() == (n.t == json::UNDEF), op << ": type tests");
  switch (n.t) {
    case json::INT: VF_CHECK(Big(v.toInteger()) == n.i, op << ": integer " << v.toInteger() << ", expected " << n.i); return hash_str(n.i.str(), 1);
    case json::BOOL: VF_CHECK(v.toBoolean() == n.b, op << ": boolean " << v.toBoolean()); return 2 + n.b;
    case json::STRING: VF_CHECK(v.toString() == n.s, op << ": string of " << v.toString().size() << " bytes '" << esc(v.toString()) << "', expected '" << esc(n.s) << "'"); return hash_str(n.s, 4);
    case json::OBJECT: {
      uint64_t h = same_object(v.toObject(), n, op);
      for (std::map<std::string, Node>::const_iterator it = n.o.begin(); it != n.o.end(); ++it)
        VF_CHECK(&v[it->first] == &v.toObject()[it->first], op << ": value[key]");
      VF_CHECK(v[0].isUndefined() && v[std::string("absent")].isUndefined() && v.toObject().size() == n.o.size(), op << ": object[0] or object[absent]");
      return h;
    }
    case json::ARRAY: {
      uint64_t h = same_array(v.toArray(), n, op);
      for (size_t i = 0; i < n.a.size(); ++i) VF_CHECK(&v[(int)i] == &v.toArray()[(int)i], op << ": value[i]");
      VF_CHECK(v[std::string("k")].isUndefined(), op << ": array[key]");
      return h;
    }
    default: VF_CHECK(v[0].isUndefined() && v[std::string("x")].isUndefined(), op << ": undefined[...]"); return 9;
  }
}

static std::string word(Rng& r) {
  switch (r.below(7)) {
    case 0: return "";
    case 6: return sdbm_twin(r.below(8), 3);   // keys of one hash and length
    case 1: return std::string("a\0b", 3) + std::to_string(r.below(9));
    case 2: return std::string(r.below(60), 'w');
    case 3: return std::string("\xff\"\\\n", 4);
    default: return "k" + std::to_string(r.below(7));
  }
}
static Big number(Rng& r) {
  Big b = 0;
  for (uint64_t n = r.below(5); n; --n) b = (b << 63) + (r.next() >> 1);
  if (r.chance(1, 3)) b = (Big(1) << (unsigned)(1 + r.below(256))) - 1;
  if (b >> 256) b = b & ((Big(1) << 256) - 1);
  return r.chance(1, 2) ? Big(-b) : b;
}

static Value fresh(Rng& r, Node& n, int d) {
  n = Node();
  switch (r.below(d > 0 ? 15 : 6)) {
    case 0: return Value();
    case 1: n.t = json::BOOL; n.b = r.chance(1, 2); return Value(n.b);
    case 2: n.t = json::INT; n.i = number(r); return Value(eni::s256(n.i));
    case 3: { n.t = json::INT; int i = (int)r.next(); n.i = i; return Value(i); }
    case 4: n.t = json::STRING; n.s = word(r); return Value(n.s);
    case 5: { n.t = json::STRING; n.s = "c" + std::to_string(r.below(100)); return Value(n.s.c_str()); }
    case 6: case 7: case 8: case 9: {
      n.t = json::ARRAY;
      Array a;
      for (uint64_t k = r.below(5); k; --k) { Node c; a.push_back(fresh(r, c, d - 1)); n.a.push_back(c); }
      return Value(a);
    }
    default: {
      n.t = json::OBJECT;
      Object o;
      for (uint64_t k = r.below(5); k; --k) { Node c; std::string key = word(r); o[key] = fresh(r, c, d - 1); n.o[key] = c; }
      return Value(o);
    }
  }
}

struct Place { Value* v; Node* n; };
static Place descend(Rng& r, Value& v, Node& n) {
  Place p = {&v, &n};
  while (r.chance(2, 3)) {
    if (p.n->t == json::ARRAY && !p.n->a.empty()) {
      size_t i = r.below(p.n->a.size());
      p.v = r.chance(1, 2) ? &p.v->asArray().at(i) : &*(p.v->asArray().begin() + i);
      p.n = &p.n->a[i];
    } else if (p.n->t == json::OBJECT && !p.n->o.empty()) {
      std::map<std::string, Node>::iterator it = p.n->o.begin();
      std::advance(it, r.below(p.n->o.size()));
      p.v = r.chance(1, 2) ? &p.v->asObject()[it->first] : &p.v->asObject().find(it->first)->value();
      p.n = &it->second;
    } else break;
  }
  return p;
}

static void one(Rng& r, uint64_t c, const Args& a) {
  const int N = 4;
  unsigned calm = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 6 : 30;
  Value* v[N];
  Node n[N];
  for (int i = 0; i < N; ++i) v[i] = new Value(fresh(r, n[i], 3));
  unsigned steps = 60 + (unsigned)r.below(a.size ? a.size : 200);
  for (unsigned s = 0; s < steps; ++s) {
    int x = (int)r.below(N), y = r.chance(1, 3) ? x : (int)r.below(N);
    Place p = descend(r, *v[x], n[x]), q = descend(r, *v[y], n[y]);
    Place in = descend(r, *p.v, *p.n);   // inside p
    Place in2 = descend(r, *p.v, *p.n);
    size_t cp = count(*p.n), cq = count(*q.n);
    const char* op = "?";
    uint64_t what = r.below(24);
    if ((what == 2 || what == 3 || what == 6 || what == 7 || what == 8 || what >= 19) && what != 22 && !r.chance(1, calm)) what = 9 + r.below(10);
    if (count(n[x]) > 250 || depth(n[x]) > 40) what = 20 + r.below(2);
    switch (what) {
      case 0: case 1: if (cq < 100) { op = x == y ? "part = part of the same" : "part = part of another"; Node t = *q.n; *p.v = *q.v; *p.n = t; } break;
      case 2: case 3: { op = "value = part of itself"; Node t = *in.n; *p.v = *in.v; *p.n = t; break; }
      case 4: if (cp < 60) { op = "part of a value = the value"; Node t = *p.n; *in.v = *p.v; *in.n = t; } break;
      case 5: { op = "self ="; *p.v = *p.v; break; }
      case 6: { op = "copy-construct"; Value* w = new Value(*q.v); Node t = *q.n; delete v[x]; v[x] = w; n[x] = t; break; }
      case 7: { op = "move-construct"; Value w(std::move(*q.v)); same(w, *q.n, op); *q.n = Node(); same(*q.v, *q.n, "moved from"); Node t; *q.v = fresh(r, t, 2); *q.n = t; break; }
      case 8: { op = "= temporary"; Node t; *p.v = fresh(r, t, 2); *p.n = t; break; }
      case 9: case 10:
        if (p.n->t == json::ARRAY && cq < 80) { op = "push_back part"; Node t = *q.n; p.v->asArray().push_back(*q.v); p.n->a.push_back(t); }
        else if (p.n->t == json::OBJECT && cq < 80) { op = "object[k] = part"; Node t = *q.n; std::string k = word(r); Value copy(*q.v); p.v->asObject()[k] = copy; p.n->o[k] = t; }
        break;
      case 11:
        if (p.n->t == json::ARRAY && cp < 80) { op = "insert own part"; Node t = *in.n; size_t at = r.below(p.n->a.size() + 1); p.v->asArray().insert(at, *in.v); p.n->a.insert(p.n->a.begin() + at, t); }
        break;
      case 12:
        if (p.n->t == json::ARRAY && !p.n->a.empty()) { op = "array erase"; size_t at = r.below(p.n->a.size()); p.v->asArray().erase(at); p.n->a.erase(p.n->a.begin() + at); }
        else if (p.n->t == json::OBJECT) { op = "object erase"; std::string k = p.n->o.empty() || r.chance(1, 4) ? word(r) : p.n->o.begin()->first; VF_CHECK(p.v->asObject().erase(k) == (p.n->o.erase(k) > 0), "erase"); }
        break;
      case 13:
        if (p.n->t == json::ARRAY && in.n->t == json::ARRAY) { op = "array = inner array"; Node t = *in.n; p.v->asArray() = in.v->asArray(); *p.n = t; }
        else if (p.n->t == json::OBJECT && in.n->t == json::OBJECT) { op = "object = inner object"; Node t = *in.n; p.v->asObject() = in.v->asObject(); *p.n = t; }
        break;
      case 14:
        if (in.n->t == json::INT) { op = "integer write"; Big b = number(r); in.v->asInteger() = eni::s256(b); in.n->i = b; }
        else if (in.n->t == json::STRING) { op = "string write"; in.v->asString() += "+"; in.n->s += "+"; }
        break;
      case 15: {
        op = "delegate";
        Node t; Value w;
        switch (r.below(3)) {
          case 0: { eni::s256* i = new eni::s256(number(r)); t.t = json::INT; t.i = Big(*i); Value& ret = w.delegate(*i); VF_CHECK(&ret == &w && &w.asInteger() == i, "delegate"); break; }
          case 1: { Array* ar = new Array(); ar->push_back(*p.v); t.t = json::ARRAY; t.a.push_back(*p.n); w.delegate(*ar); VF_CHECK(&w.asArray() == ar, "delegate"); break; }
          default: { Object* ob = new Object(); (*ob)["d"] = *p.v; t.t = json::OBJECT; t.o["d"] = *p.n; w.delegate(*ob); VF_CHECK(&w.asObject() == ob, "delegate"); break; }
        }
        same(w, t, op);
        if (count(t) < 80) { *in.v = w; *in.n = t; }
        // a value that holds something refuses, and keeps it
        if (p.n->t != json::UNDEF && in.n != p.n) {
          Node before = *p.n;
          eni::s256 i(5); Array ar; Object ob;
          bool threw = false;
          try {
            switch (r.below(3)) { case 0: p.v->delegate(i); break; case 1: p.v->delegate(ar); break; default: p.v->delegate(ob); }
          } catch (const std::logic_error& e) { threw = true; VF_CHECK(!strcmp(e.what(), "invalid delegation: value has been assigned"), e.what()); }
          VF_CHECK(threw, "delegate to a value that holds something did not throw");
        }
        break;
      }
      case 16: {
        op = "copies of containers";
        if (p.n->t == json::ARRAY) { Array ar(p.v->asArray()); Array b2; b2 = ar; same_array(ar, *p.n, op); if (ar.size()) ar.erase((size_t)0); ar.push_back(Value(1)); same_array(b2, *p.n, op); b2 = b2; same_array(b2, *p.n, op); *p.v = Value(b2); }
        else if (p.n->t == json::OBJECT) { Object ob(p.v->asObject()); Object b2; b2["old"] = Value(true); b2 = ob; same_object(ob, *p.n, op); ob["new"] = Value(1); same_object(b2, *p.n, op); b2 = b2; same_object(b2, *p.n, op); *p.v = Value(b2); }
        break;
      }
      case 17: {
        op = "std::vector of values";
        std::vector<Value> w;
        std::vector<Node> m;
        for (uint64_t k = 1 + r.below(6); k; --k) { Place z = descend(r, *v[k % N], n[k % N]); w.push_back(*z.v); m.push_back(*z.n); }
        w.insert(w.begin(), w.back()); m.insert(m.begin(), Node(m.back()));
        w.erase(w.begin() + m.size() / 2); m.erase(m.begin() + m.size() / 2);
        for (size_t k = 0; k < m.size(); ++k) same(w[k], m[k], op);
        if (count(m[0]) < 80) { *p.v = w[0]; *p.n = m[0]; }
        break;
      }
      case 18:
        if (p.n->t == json::OBJECT && cp < 80 && in.n != p.n) { op = "object[k] = own part"; std::string k = word(r); Node t = *in.n; Value copy(*in.v); p.v->asObject()[k] = copy; p.n->o[k] = t; }
        else if (p.n->t == json::ARRAY && cp < 80) { op = "array of own ranges"; const Array& ca = p.v->asArray(); std::vector<Node> t = p.n->a; p.v->asArray().insert((size_t)0, ca.begin(), ca.end()); p.n->a.insert(p.n->a.begin(), t.begin(), t.end()); }
        break;
      case 19: { op = "std::swap"; if (q.v == q.v && x != y) { std::swap(*p.v, *q.v); std::swap(*p.n, *q.n); } break; }
      case 20: { op = "shrink"; Node t; *v[x] = fresh(r, t, 2); n[x] = t; break; }
      case 21: { op = "new"; Node t; Value* w = new Value(fresh(r, t, 3)); delete v[x]; v[x] = w; n[x] = t; break; }
      case 22: if (p.n->t == json::ARRAY && !p.n->a.empty()) { op = "pop_back"; Node t = p.n->a.back(); Value w = p.v->asArray().pop_back(); p.n->a.pop_back(); same(w, t, op); } break;
      default: if (p.n->t == json::OBJECT) { op = "object[k]"; std::string k = word(r); p.v->asObject()[k]; p.n->o[k]; } break;
    }
    (void)in2;
    say(op);
    stats().add("operations");
    stats().add(std::string("op ") + op);
    uint64_t h = 1;
    for (int i = 0; i < N; ++i) { h = mix(h, same(*v[i], n[i], op)); stats().max("max_nodes", count(n[i])); stats().max("max_depth", depth(n[i])); }
    stats().state(h);
    stats().add("values_compared", N);
  }
  for (int i = 0; i < N; ++i) delete v[i];
  if (c < 3) sample(trace().substr(0, 250));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
