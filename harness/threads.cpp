// Operations, parsing, printing and shared const access on several threads, under
// ThreadSanitizer.  Every result is compared with that of a run on one thread after.
#include "common.h"
#include "keys.h"
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <eni.h>
#include <eni_crypto.h>
#include <eni_types.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <atomic>
#include <new>
#include <thread>
#include <sched.h>

using namespace vf;

extern "C" {
char* reverse_run(char*);      uint64_t* reverse_gas(char*);
char* json_run(char*);         uint64_t* json_gas(char*);
char* scrypt_run(char*);       uint64_t* scrypt_gas(char*);
char* rsa_encrypt_run(char*);  uint64_t* rsa_encrypt_gas(char*);
char* rsa_decrypt_run(char*);  uint64_t* rsa_decrypt_gas(char*);
}

class Echo : public eni::EniBase
{
public:
  Echo(const std::string& pArgStr) : eni::EniBase(pArgStr) { }
private:
  bool parse(const json::Array& pArgs) override { m_Args = pArgs; return true; }
  eni::Gas gas() const override { return m_Args.size(); }
  bool run(json::Array& pRetVal) override {
    for (size_t i = 0; i < m_Args.size(); ++i) pRetVal.emplace_back(m_Args.at(i));
    return true;
  }
  json::Array m_Args;
};
ENI_C_INTERFACE(echo, Echo)

// Delays at allocations, so that threads meet in the middle of operations.
static thread_local uint64_t t_delay = 0;
static void delay() {
  if (!t_delay) return;
  t_delay = t_delay * 6364136223846793005ull + 1442695040888963407ull;
  if ((t_delay >> 33) % 16 == 0) sched_yield();
}
void* operator new(size_t n) { delay(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// -- what a thread does ----------------------------------------------------------
struct Hash { uint32_t operator()(int k) const { return (uint32_t)(k % 11) * 3; } };
typedef eni::HashTable<int, long, Hash> Table;
typedef eni::StringMap<long> Map;

struct Shared {   // read by all
  json::Value value;
  json::Array array;
  json::Object object;
  Table table;
  Map map;
  eni::Vector<std::string> vector;
};

struct Task { int kind; std::string text; int op; uint64_t n; };

static void dump(const json::Value& v, std::string& o) {
  if (v.isInteger()) o += v.toInteger().str();
  else if (v.isBoolean()) o += v.toBoolean() ? 'T' : 'F';
  else if (v.isString()) o += "'" + v.toString() + "'";
  else if (v.isArray()) { const json::Array& a = v.toArray(); o += '['; for (size_t i = 0; i < a.size(); ++i) { dump(a[(int)i], o); o += ','; } o += ']'; }
  else if (v.isObject()) { const json::Object& a = v.toObject(); o += '{'; for (json::Object::const_iterator i = a.begin(); i != a.end(); ++i) { o += i->key() + ":"; dump(i->value(), o); } o += '}'; }
  else o += 'u';
}

static std::string print(const json::Value& v) { std::ostringstream os; v.print(os); return os.str(); }

static std::string perform(const Task& t, const Shared& s) {
  static const struct { char* (*run)(char*); uint64_t* (*gas)(char*); } F[] = {
    {reverse_run, reverse_gas}, {json_run, json_gas}, {scrypt_run, scrypt_gas}, {rsa_encrypt_run, rsa_encrypt_gas},
    {rsa_decrypt_run, rsa_decrypt_gas}, {echo_run, echo_gas}};
  std::string out;
  switch (t.kind) {
    case 0: case 1: {
      std::string copy = t.text;
      if (t.kind == 0) {
        char* r = F[t.op].run(&copy[0]);
        out = r ? r : "null";
        free(r);
      } else {
        uint64_t* g = F[t.op].gas(&copy[0]);
        out = g ? std::to_string(*g) : "null";
        free(g);
      }
      return out;
    }
    case 2: {  // well-formed or not
      json::Parser p(t.text);
      if (!p) return "malformed";
      return print(p.getRoot());
    }
    case 3: {  // a value of one's own
      json::Object o;
      Rng r(t.n);
      for (int i = 0; i < 12; ++i) {
        std::string k = "k" + std::to_string(r.below(9));
        switch (r.below(6)) {
          case 0: o[k] = json::Value(eni::s256((long)r.below(1000))); break;
          case 1: o[k] = json::Value(k + k); break;
          case 2: { json::Array a; a.push_back(json::Value(true)); a.emplace_back(k); o[k] = json::Value(a); break; }
          case 3: { json::Value v(o); o[k] = v; break; }
          case 4: o.erase(k); break;
          default: { json::Value u; const json::Value& c = u; out += c.isUndefined() ? 'u' : '!'; out += c[k].isUndefined() ? 'u' : '!'; out += c[3].isUndefined() ? 'u' : '!'; }
        }
      }
      return out + print(json::Value(o));
    }
    case 4: {  // shared values
      dump(s.value, out);
      json::Value c(s.value);
      out += print(s.value);
      out += s.value["absent"].isUndefined() ? 'u' : '!';
      out += s.value["k"].isUndefined() ? 'u' : 'd';
      out += s.value[7].isUndefined() ? 'u' : 'd';
      try { out += s.object["nope"].isUndefined() ? 'u' : '!'; } catch (const std::exception& e) { out += e.what(); }
      out += s.object.find("nope") == s.object.end() ? 'e' : 'f';
      for (json::Array::const_iterator i = s.array.begin(); i != s.array.end(); ++i) dump(*i, out);
      json::Array a(s.array);
      json::Object o;
      o = s.object;
      return out + print(c) + print(json::Value(a)) + print(json::Value(o));
    }
    case 5: {  // shared tables
      Rng r(t.n);
      for (int i = 0; i < 40; ++i) {
        int k = (int)r.below(60);
        Table::const_iterator f = s.table.find(k);
        out += f == s.table.end() ? "-" : std::to_string(f->value());
        out += std::to_string(s.table.count(k));
        for (Table::const_chain_iterator c = s.table.begin(k); c != s.table.end(k); ++c) out += std::to_string(c->key()) + ".";
        std::string n = "n" + std::to_string(k);
        Map::const_iterator m = s.map.find(n);
        out += m == s.map.end() ? "-" : std::to_string(m->value());
        try { out += std::to_string(s.map.at(n)); } catch (const std::exception&) { out += "x"; }
        try { out += std::to_string(s.map[n]); } catch (const std::exception&) { out += "x"; }
      }
      for (Table::const_iterator i = s.table.begin(); i != s.table.end(); ++i) out += std::to_string(i->key()) + " ";
      for (Map::const_iterator i = s.map.begin(); i != s.map.end(); ++i) out += i->key() + " ";
      out += std::to_string(s.table.load_factor()) + std::to_string(s.map.size());
      Table t2(s.table);
      Map m2(s.map);
      eni::Vector<std::string> v2(s.vector);
      v2.insert(v2.size(), s.vector.begin(), s.vector.end());
      try { out += s.vector.at(s.vector.size()); } catch (const std::exception& e) { out += e.what(); }
      for (size_t i = 0; i < v2.size(); ++i) out += v2[i];
      return out + std::to_string(t2.numOfEntries()) + std::to_string(m2.size());
    }
    case 6: {  // keys, hexadecimal, decimal
      std::string h, b;
      eni_crypto::str2hex(t.text, h);
      eni_crypto::hex2str(h, b);
      out = h + b + eni::to_string(eni::s256((long)t.n)) + eni::to_string((eni::Bool)(t.n & 1));
      eni::internal::StringHasher<eni::internal::ELF> e;
      eni::internal::StringHasher<eni::internal::AP> ap;
      eni::internal::StringHasher<eni::internal::ES> es;
      return out + std::to_string(e(t.text)) + std::to_string(ap(t.text)) + std::to_string(es(t.text));
    }
    default: {  // RSA with a key of one's own
      const Key& k = KEYS[t.n % NKEYS];
      RSA* pub = eni_crypto::rsa::create_pubkey(k.pub);
      RSA* priv = eni_crypto::rsa::create_privkey(k.pkcs8);
      std::string c, d;
      bool ok = pub && priv && eni_crypto::rsa::pub_encrypt(*pub, t.text, c) && eni_crypto::rsa::priv_decrypt(*priv, c, d);
      eni_crypto::rsa::destroy(pub);
      eni_crypto::rsa::destroy(priv);
      return ok ? c + d : "refused";
    }
  }
}

static std::string quoted(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') o += "\\n"; else if (s[i] == '"' || s[i] == '\\') { o += '\\'; o += s[i]; } else o += s[i];
  return o + "\"";
}

static std::string word(Rng& r, unsigned max) {
  std::string s;
  for (uint64_t n = r.below(max); n; --n) s += (char)('a' + r.below(26));
  return s;
}

static std::string json_text(Rng& r, int depth) {
  switch (r.below(depth > 3 ? 3 : 6)) {
    case 0: return std::to_string((long)r.next());
    case 1: return quoted(word(r, 20));
    case 2: return r.chance(1, 2) ? "true" : "false";
    case 3: case 4: { std::string s = "["; for (uint64_t n = r.below(5), i = 0; i < n; ++i) s += (i ? "," : "") + json_text(r, depth + 1); return s + "]"; }
    default: { std::string s = "{"; for (uint64_t n = r.below(5), i = 0; i < n; ++i) s += (i ? ",\"" : "\"") + word(r, 3) + "\":" + json_text(r, depth + 1); return s + "}"; }
  }
}

static Task make(Rng& r, int only) {
  Task t;
  t.kind = only >= 0 ? only : (int)r.below(8);
  t.n = r.next();
  t.op = (int)r.below(6);
  if (t.kind > 1) { t.text = t.kind == 2 ? json_text(r, 0) : word(r, t.kind == 7 ? 60 : 200); if (t.kind == 2 && r.chance(1, 3)) t.text = t.text.substr(0, t.text.size() / 2) + "!"; return t; }
  const Key& k = KEYS[r.below(NKEYS)];
  switch (t.op) {
    case 0: t.text = "[" + quoted(word(r, 100)) + "]"; break;
    case 1: {
      // (calls that the operation defines: see known.h)
      static const char* O[] = {"parseArray", "parseString", "arrayGet", "objectGet"};
      uint64_t o = r.below(4), n = 1 + r.below(5);
      std::string d = o == 1 ? quoted(word(r, 20)) : json_text(r, 0);
      if (o >= 2) {
        d = o == 2 ? "[" : "{";
        for (uint64_t i = 0; i < n; ++i) d += (i ? "," : "") + (o == 2 ? "" : quoted(word(r, 3)) + ":") + json_text(r, 1);
        d += o == 2 ? "]" : "}";
      }
      t.text = "[\"" + std::string(O[o]) + "\"," + quoted(d) + ",0," + std::to_string(d.size()) + (o == 2 ? "," + std::to_string(r.below(n)) : o == 3 ? ",\"" + word(r, 3) + "\"" : "") + "]";
      break;
    }
    case 2: { std::string h; for (uint64_t n = r.below(161); n; --n) h += "0123456789abcdef"[r.below(16)]; t.text = "[\"" + h + "\"]"; break; }
    case 3: t.text = "[" + quoted(k.pub) + "," + quoted(word(r, k.bytes + 3)) + "]"; break;
    case 4: { std::string h = "00"; for (int i = 1; i < k.bytes; ++i) { h += "0123456789abcdef"[r.below(16)]; h += '7'; } t.text = "[" + quoted(r.chance(1, 2) ? k.pkcs1 : k.pkcs8) + "," + quoted(h) + "]"; break; }
    default: t.text = "[" + json_text(r, 0) + "," + json_text(r, 0) + "]";
  }
  if (r.chance(1, 8)) t.text = t.op < 2 ? "{}" : "[1]";
  return t;
}

struct Event { uint32_t ticket; uint16_t thread, task; };
static std::atomic<uint32_t> g_ticket(0);
static std::atomic<int> g_ready(0);

static void one(Rng& r, uint64_t c, const Args& a) {
  unsigned threads = 2 + (unsigned)r.below(7), tasks = 1 + (unsigned)r.below(6);
  // some cases have all the threads do the same, so that a first use meets a first use
  int only = r.chance(1, 2) ? (int)((a.seed + c) % 8) : -1;
  bool same = r.chance(1, 2);
  std::vector<std::vector<Task> > todo(threads);
  for (unsigned i = 0; i < threads; ++i)
    for (unsigned j = 0; j < tasks; ++j) {
      Task t = make(r, only);
      todo[i].push_back(same && i ? todo[0][j] : t);
    }
  Shared* s = new Shared;
  {
    // (the parser is not used before the threads do, in half of the cases)
    json::Object o;
    for (int i = 0; i < 20; ++i) o[word(r, 4)] = json::Value(eni::s256((long)i));
    s->object = o;
    for (int i = 0; i < 10; ++i) { if (i & 1) s->array.push_back(json::Value(word(r, 9))); else s->array.push_back(json::Value(o)); }
    s->value = r.chance(1, 2) ? json::Value(s->object) : json::Value(s->array);
    bool e;
    for (int i = 0; i < 40; ++i) { int k = (int)r.below(60); s->table.insert(k, e)->setValue(i); if (i % 5 == 4) s->table.erase((int)r.below(60)); }
    for (int i = 0; i < 30; ++i) s->map["n" + std::to_string(r.below(60))] = i;
    for (int i = 0; i < 12; ++i) s->vector.push_back(word(r, 40));
  }
  std::vector<std::vector<std::string> > got(threads);
  std::vector<std::vector<Event> > events(threads);
  g_ready = 0;
  g_ticket = 0;
  std::vector<std::thread> ts;
  uint64_t salt = r.next() | 1;
  for (unsigned i = 0; i < threads; ++i) {
    got[i].resize(tasks);
    events[i].reserve(2 * tasks);
    ts.push_back(std::thread([&, i] {
      g_ready.fetch_add(1);
      while (g_ready.load() < (int)threads) sched_yield();
      t_delay = salt * (i + 1);
      for (unsigned j = 0; j < tasks; ++j) {
        // relaxed: tells the order of events without ordering the threads
        events[i].push_back(Event{g_ticket.fetch_add(1, std::memory_order_relaxed), (uint16_t)i, (uint16_t)(2 * j)});
        got[i][j] = perform(todo[i][j], *s);
        events[i].push_back(Event{g_ticket.fetch_add(1, std::memory_order_relaxed), (uint16_t)i, (uint16_t)(2 * j + 1)});
      }
      t_delay = 0;
    }));
  }
  for (unsigned i = 0; i < threads; ++i) ts[i].join();
  for (unsigned i = 0; i < threads; ++i)
    for (unsigned j = 0; j < tasks; ++j) {
      std::string alone = perform(todo[i][j], *s);
      trace() = "kind " + std::to_string(todo[i][j].kind) + " op " + std::to_string(todo[i][j].op) + " " + todo[i][j].text;
      VF_CHECK(alone == got[i][j], "among " << threads << " threads: " << esc(got[i][j]).substr(0, 200) << " alone: " << esc(alone).substr(0, 200));
      stats().add("kind " + std::to_string(todo[i][j].kind));
    }
  std::vector<Event> order(2 * threads * tasks);
  for (unsigned i = 0; i < threads; ++i)
    for (size_t j = 0; j < events[i].size(); ++j) order[events[i][j].ticket] = events[i][j];
  uint64_t h = mix(threads, tasks), overlap = 0;
  std::string show;
  std::set<int> open;
  for (size_t i = 0; i < order.size(); ++i) {
    h = mix(mix(h, order[i].thread), order[i].task);
    if (order[i].task & 1) open.erase(order[i].thread);
    else { overlap += open.size(); open.insert(order[i].thread); }
    show += (char)('A' + order[i].thread);
    show += order[i].task & 1 ? ')' : '(';
  }
  stats().state(h);
  stats().add("tasks", threads * tasks);
  stats().add("overlapping task pairs", overlap);
  stats().max("max_threads", threads);
  if (c % 5 == 0) sample(show.substr(0, 200));
  delete s;
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
