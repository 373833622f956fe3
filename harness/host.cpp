// A process that runs libeni's real code on records read from a file and
// writes down what came out.  The oracles are in Python (lib/*.py).
//
//   host IN OUT        IN: records of [u32 nfields]([u32 len][bytes])*
//
// The code under test is compiled with exit.h, so that the exit(87) of EniBase
// becomes an observation instead of the end of this process.
#include <eni.h>
#include <eni_types.h>
#include <json/Parser.h>
#include <json/Object.h>
#include <adt/StringHasher.h>
#include <eni_crypto.h>
#include <eni_scrypt.h>
#include <scrypt.h>
#include <openssl/rsa.h>
#include <locale>
#include "common.h"
#include "known.h"

extern "C" {
char* reverse_run(char*);      uint64_t* reverse_gas(char*);
char* json_run(char*);         uint64_t* json_gas(char*);
char* scrypt_run(char*);       uint64_t* scrypt_gas(char*);
char* rsa_encrypt_run(char*);  uint64_t* rsa_encrypt_gas(char*);
char* rsa_decrypt_run(char*);  uint64_t* rsa_decrypt_gas(char*);
}

// Gives its arguments back: what an operation is told, and what the caller gets.
namespace { int g_echo_parsed, g_echo_ran; }
class Echo : public eni::EniBase
{
public:
  Echo(const std::string& pArgStr) : eni::EniBase(pArgStr) { }
private:
  bool parse(const json::Array& pArgs) override { ++g_echo_parsed; m_Args = pArgs; return true; }
  eni::Gas gas() const override { return m_Args.size(); }
  bool run(json::Array& pRetVal) override {
    ++g_echo_ran;
    for (size_t i = 0; i < m_Args.size(); ++i) {
      if (i & 1) pRetVal.emplace_back(m_Args.at(i));
      else pRetVal.push_back(m_Args.at(i));
    }
    return true;
  }
  json::Array m_Args;
};
ENI_C_INTERFACE(echo, Echo)

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t allocated() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif

namespace {
struct ExitCalled { int code; };
bool g_in_case = false;

typedef std::vector<std::string> Fields;

struct Cerr {  // what the code under test wrote to std::cerr
  std::ostringstream os;
  std::streambuf* old;
  Cerr() : old(std::cerr.rdbuf(os.rdbuf())) {}
  ~Cerr() { std::cerr.rdbuf(old); }
};

std::string num(uint64_t v) { std::ostringstream o; o.imbue(std::locale::classic()); o << v; return o.str(); }

// Everything that the public interface says about a value.
void dump(const json::Value& v, std::string& o) {
  int kinds = v.isInteger() + v.isBoolean() + v.isString() + v.isObject() + v.isArray() + v.isUndefined();
  if (kinds != 1) { o += "?kinds"; return; }
  if (v.isInteger()) o += "i" + v.toInteger().str() + ";";
  else if (v.isBoolean()) o += v.toBoolean() ? "T" : "F";
  else if (v.isString()) o += "s" + num(v.toString().size()) + ":" + v.toString();
  else if (v.isArray()) {
    const json::Array& a = v.toArray();
    o += "a" + num(a.size()) + "[";
    size_t i = 0;
    for (json::Array::const_iterator it = a.begin(), e = a.end(); it != e; ++it, ++i) {
      std::string byiter, byindex, byvalue;
      dump(*it, o);
      if (&*it != &a[(int)i] || &a[(int)i] != &a.at(i) || &v[(int)i] != &a.at(i)) o += "?index";
    }
    if (i != a.size() || a.empty() != (a.size() == 0)) o += "?size";
    o += "]";
  }
  else if (v.isObject()) {
    const json::Object& a = v.toObject();
    std::map<std::string, std::string> m;
    size_t n = 0;
    for (json::Object::const_iterator it = a.begin(), e = a.end(); it != e; ++it, ++n) {
      std::string d, k = it->key();
      dump(it->value(), d);
      if (!m.insert(std::make_pair(k, d)).second) o += "?dupkey";
      if (&a.at(k) != &it->value() || &a[k] != &it->value() || &v[k] != &it->value() || a.find(k) == a.end())
        o += "?lookup";
    }
    if (n != a.size() || a.empty() != (n == 0)) o += "?size";
    o += "o" + num(n) + "{";
    for (std::map<std::string, std::string>::iterator it = m.begin(); it != m.end(); ++it)
      o += num(it->first.size()) + ":" + it->first + "=" + it->second;
    o += "}";
  }
  else o += "u";
}

// The exact bytes in a block of their own, so that a read past the end is seen.
struct CBuf {
  char* p;
  size_t n;
  explicit CBuf(const std::string& s) : p((char*)malloc(s.size() + 1)), n(s.size() + 1) { memcpy(p, s.c_str(), n); }
  ~CBuf() { free(p); }
};

void do_parse(const Fields& in, Fields& out) {
  Cerr cerr;
  bool ok;
  std::string d, p, d2, p2;
  {
    json::Parser parser(in[1]);
    ok = (bool)parser;
    if (ok) {
      dump(parser.getRoot(), d);
      std::ostringstream os;
      parser.getRoot().print(os);
      p = os.str();
    }
  }
  std::string err = cerr.os.str();
  if (ok) {
    json::Parser again(p);
    if (!again) d2 = "?reparse";
    else {
      dump(again.getRoot(), d2);
      std::ostringstream os;
      again.getRoot().print(os);
      p2 = os.str();
    }
  }
  out.push_back(ok ? "ok" : "fail");
  out.push_back(d);
  out.push_back(p);
  out.push_back(d2);
  out.push_back(p2);
  out.push_back(err);
}

typedef char* (*run_fn)(char*);
typedef uint64_t* (*gas_fn)(char*);
run_fn run_of(const std::string& op) {
  return op == "reverse" ? reverse_run : op == "json" ? json_run : op == "scrypt" ? scrypt_run :
         op == "rsa_encrypt" ? rsa_encrypt_run : op == "rsa_decrypt" ? rsa_decrypt_run : echo_run;
}
gas_fn gas_of(const std::string& op) {
  return op == "reverse" ? reverse_gas : op == "json" ? json_gas : op == "scrypt" ? scrypt_gas :
         op == "rsa_encrypt" ? rsa_encrypt_gas : op == "rsa_decrypt" ? rsa_decrypt_gas : echo_gas;
}

void call_op(const std::string& op, const std::string& what, char* args, std::string& kind, std::string& val) {
  try {
    if (what == "run") {
      char* r = run_of(op)(args);
      kind = r ? "str" : "null";
      if (r) val = r;
      free(r);
    } else {
      uint64_t* g = gas_of(op)(args);
      kind = g ? "gas" : "null";
      if (g) val = num(*g);
      free(g);
    }
  } catch (ExitCalled e) {
    kind = "exit";
    val = num(e.code);
  }
}

void do_op(const Fields& in, Fields& out) {
  const std::string &op = in[1], &what = in[2], &args = in[3];
  if (in[0] != "force")
    if (const char* k = vf::known_defect(op, args)) { out.push_back("?known"); out.push_back(k); return; }
  Cerr cerr;
  CBuf buf(args);
  std::string kind, val, note;
  g_echo_parsed = g_echo_ran = 0;
  call_op(op, what, buf.p, kind, val);
  if (memcmp(buf.p, args.c_str(), buf.n)) note += "modified ";
  if (op == "echo") note += "parsed" + num(g_echo_parsed) + " ran" + num(g_echo_ran);
  out.push_back(kind);
  out.push_back(val);
  out.push_back(note);
  out.push_back(cerr.os.str());
}

// The same call over and over: what memory stays behind?
void do_repeat(const Fields& in, Fields& out) {
  if (const char* k = vf::known_defect(in[1], in[4])) { out.push_back("?known"); out.push_back(k); return; }
  size_t n = strtoull(in[3].c_str(), 0, 10);
  size_t at0 = 0, at1 = 0, grown = ~(size_t)0;   // the least growth of a round: caches settle after the first
  {
    CBuf buf(in[4]);
    std::string kind, val, first;
    bool same = true;
    for (int round = 0; round < 4; ++round) {
      for (size_t i = 0; i < n; ++i) {
        Cerr cerr;
        kind.clear(); val.clear();
        call_op(in[1], in[2], buf.p, kind, val);
        if (i == 0 && round == 0) first = kind + val;
        else if (first != kind + val) same = false;
      }
      { std::string a, b; a.swap(kind); b.swap(val); }
      at1 = allocated();
      if (round) grown = std::min(grown, at1 > at0 ? at1 - at0 : (size_t)0);
      at0 = at1;
    }
    out.push_back(same ? "same" : "differs");
  }
  out.push_back(num(grown));
}

// An operation object, used as the script says (g: gas, s: start).
void do_life(const Fields& in, Fields& out) {
  Cerr cerr;
  eni::EniBase* o;
  try {
    o = in[1] == "scrypt" ? (eni::EniBase*)new Scrypt(in[3]) :
        in[1] == "rsa_encrypt" ? (eni::EniBase*)new eni_crypto::RSAEncrypt(in[3]) :
        in[1] == "rsa_decrypt" ? (eni::EniBase*)new eni_crypto::RSADecrypt(in[3]) : (eni::EniBase*)new Echo(in[3]);
  } catch (ExitCalled e) { out.push_back("exit" + num(e.code)); return; }
  for (size_t i = 0; i < in[2].size(); ++i) {
    if (in[2][i] == 'g') out.push_back(num(o->getGas()));
    else {
      char* r = o->start();
      out.push_back(r ? r : "null");
      free(r);
    }
  }
  delete o;
}

void do_rsa(const Fields& in, Fields& out) {
  const std::string &fn = in[1], &pem = in[2];
  bool pub = fn.compare(0, 3, "pub") == 0;
  RSA* key = pub ? eni_crypto::rsa::create_pubkey(pem) : eni_crypto::rsa::create_privkey(pem);
  if (!key) { out.push_back("nokey"); return; }
  out.push_back("key");
  for (size_t i = 3; i < in.size(); ++i) {
    std::string res = "unset";
    bool ok = fn == "pub_encrypt" ? eni_crypto::rsa::pub_encrypt(*key, in[i], res) :
              fn == "pub_decrypt" ? eni_crypto::rsa::pub_decrypt(*key, in[i], res) :
              fn == "priv_encrypt" ? eni_crypto::rsa::priv_encrypt(*key, in[i], res) :
              eni_crypto::rsa::priv_decrypt(*key, in[i], res);
    out.push_back(ok ? "1" : "0");
    out.push_back(res);
  }
  eni_crypto::rsa::destroy(key);
  if (key) out.push_back("?destroy");
}

void do_hex(const Fields& in, Fields& out) {
  std::string res = "unset";
  bool ok = in[1] == "enc" ? eni_crypto::str2hex(in[2], res) : eni_crypto::hex2str(in[2], res);
  out.push_back(ok ? "1" : "0");
  out.push_back(res);
}

void do_pbkdf2(const Fields& in, Fields& out) {
  CBuf pw(in[1]), salt(in[2]);
  uint64_t c = strtoull(in[3].c_str(), 0, 10);
  size_t n = strtoull(in[4].c_str(), 0, 10);
  // exact-size copies without the terminator, so that overreads are seen
  uint8_t* p = (uint8_t*)malloc(in[1].size());
  uint8_t* s = (uint8_t*)malloc(in[2].size());
  uint8_t* b = (uint8_t*)malloc(n);
  memcpy(p, in[1].data(), in[1].size());
  memcpy(s, in[2].data(), in[2].size());
  memset(b, 0xAA, n);
  PBKDF2_SHA256(p, in[1].size(), s, in[2].size(), c, b, n);
  bool same = !memcmp(p, in[1].data(), in[1].size()) && !memcmp(s, in[2].data(), in[2].size());
  out.push_back(std::string((char*)b, n));
  out.push_back(same ? "" : "modified");
  free(p); free(s); free(b);
}

void do_scryptcore(const Fields& in, Fields& out) {
  char* i = (char*)malloc(80);
  char* o = (char*)malloc(32);
  memcpy(i, in[1].data(), 80);
  scrypt_1024_1_1_256(i, o);
  out.push_back(std::string(o, 32));
  // the same through the scratchpad interface, at the alignment asked for
  size_t off = in.size() > 2 ? strtoull(in[2].c_str(), 0, 10) : 0;
  char* sp = (char*)malloc(SCRYPT_SCRATCHPAD_SIZE + 64);
  memset(o, 0, 32);
  scrypt_1024_1_1_256_sp_generic(i, o, sp + off);
  out.push_back(std::string(o, 32));
  out.push_back(memcmp(i, in[1].data(), 80) ? "modified" : "");
  free(sp); free(i); free(o);
}

template<class T> std::string conv(const std::string& s) { return eni::to_string(T(s)); }
void do_tostr(const Fields& in, Fields& out) {
  const std::string &t = in[1], &s = in[2];
  if (t == "u64") out.push_back(conv<eni::u64>(s));
  else if (t == "u128") out.push_back(conv<eni::u128>(s));
  else if (t == "u160") out.push_back(conv<eni::Address>(s));
  else if (t == "u256") out.push_back(conv<eni::UInt>(s));
  else if (t == "s256") out.push_back(conv<eni::Int>(s));
  else out.push_back(eni::to_string((eni::Bool)(s == "1")));
}

void do_value(const Fields& in, Fields& out) {  // print a value built through the API
  const std::string& t = in[1];
  std::ostringstream os;
  std::string d;
  if (t == "int") { json::Value v((int)strtol(in[2].c_str(), 0, 10)); v.print(os); dump(v, d); }
  else if (t == "s256") { json::Value v{eni::s256(in[2])}; v.print(os); dump(v, d); }
  else if (t == "str") { json::Value v(in[2]); v.print(os); dump(v, d); }
  else if (t == "cstr") { json::Value v(in[2].c_str()); v.print(os); dump(v, d); }
  else if (t == "bool") { json::Value v(in[2] == "1"); v.print(os); dump(v, d); }
  else if (t == "array") {
    json::Array a;
    for (size_t i = 2; i < in.size(); ++i)
      if (i & 1) a.push_back(json::Value(in[i])); else a.emplace_back(in[i]);
    json::Value v(a);
    v.print(os); dump(v, d);
    std::ostringstream o2; a.print(o2);
    if (o2.str() != os.str()) d += "?arrayprint";
  } else {
    json::Object o;
    for (size_t i = 2; i + 1 < in.size(); i += 2)
      if (in[i + 1].size() & 1) o[in[i]] = json::Value(eni::s256((long)in[i + 1].size()));
      else o[in[i]] = json::Value(in[i + 1]);
    json::Value v(o);
    v.print(os); dump(v, d);
    std::ostringstream o2; o.print(o2);
    if (o2.str() != os.str()) d += "?objectprint";
  }
  out.push_back(os.str());
  out.push_back(d);
}

template<uint32_t H> std::string hash_with(const std::string& s) {
  eni::internal::StringHasher<H> a, b;
  uint32_t h = a(s);
  std::string copy(s.data(), s.size());
  copy.reserve(s.size() + 100);
  if (b(copy) != h || a(s) != h) return "?impure";
  return num(h);
}
void do_hash(const Fields& in, Fields& out) {
  using namespace eni::internal;
  const std::string& s = in[1];
  out.push_back(hash_with<RS>(s));   out.push_back(hash_with<JS>(s));
  out.push_back(hash_with<PJW>(s));  out.push_back(hash_with<ELF>(s));
  out.push_back(hash_with<BKDR>(s)); out.push_back(hash_with<SDBM>(s));
  out.push_back(hash_with<DJB>(s));  out.push_back(hash_with<DEK>(s));
  out.push_back(hash_with<BP>(s));   out.push_back(hash_with<FNV>(s));
  out.push_back(hash_with<AP>(s));   out.push_back(hash_with<ES>(s));
}
void do_esmay(const Fields& in, Fields& out) {
  eni::internal::StringHasher<eni::internal::ES> h;
  for (size_t i = 1; i + 1 < in.size(); i += 2)
    out.push_back(h.may_include(h(in[i]), h(in[i + 1])) ? "1" : "0");
}

void dispatch(const Fields& in, Fields& out);

// Two calls in turn, very many times: "endure" N SECONDS FIELDS-OF-THE-FIRST the first, the second
void do_endure(const Fields& in, Fields& out) {
  size_t n = strtoull(in[1].c_str(), 0, 10), k = strtoull(in[3].c_str(), 0, 10), i = 0;
  double limit = strtod(in[2].c_str(), 0);
  Fields call[2] = {Fields(in.begin() + 4, in.begin() + 4 + k), Fields(in.begin() + 4 + k, in.end())}, first[2], now;
  clock_t begin = clock();
  for (; i < n; ++i) {
    size_t x = i % 7 == 3;
    now.clear();
    try {
      dispatch(call[x], now);
    } catch (const std::exception& e) { now.assign(1, std::string("?exception ") + e.what()); }
    if (i == 0 || i == 3) first[x] = now;
    if (now != first[x]) break;
    if (i % 64 == 0 && (clock() - begin) / (double)CLOCKS_PER_SEC > limit) { n = i + 1; }
  }
  out.push_back(i >= n ? "same" : "differs");
  out.push_back(num(i));
  if (i < n) {
    size_t x = i % 7 == 3;
    for (size_t j = 0; j < now.size() && j < 4; ++j) out.push_back(now[j] + " / " + (j < first[x].size() ? first[x][j] : "-"));
  }
}

void dispatch(const Fields& in, Fields& out) {
  const std::string& c = in[0];
  if (c == "parse") do_parse(in, out);
  else if (c == "op" || c == "force") do_op(in, out);
  else if (c == "repeat") do_repeat(in, out);
  else if (c == "endure") do_endure(in, out);
  else if (c == "life") do_life(in, out);
  else if (c == "rsa") do_rsa(in, out);
  else if (c == "hex") do_hex(in, out);
  else if (c == "pbkdf2") do_pbkdf2(in, out);
  else if (c == "scryptcore") do_scryptcore(in, out);
  else if (c == "tostr") do_tostr(in, out);
  else if (c == "value") do_value(in, out);
  else if (c == "hash") do_hash(in, out);
  else if (c == "esmay") do_esmay(in, out);
  else out.push_back("?command");
}

uint32_t get32(const std::string& d, size_t& o) { uint32_t v; memcpy(&v, d.data() + o, 4); o += 4; return v; }
void put32(std::string& d, uint32_t v) { d.append((char*)&v, 4); }

// Memory as an earlier call might have left it.
void __attribute__((noinline)) dirty_stack(int byte) {
  char b[96 * 1024];
  memset(b, byte, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}
void dirty_heap(uint64_t seed) {
  static std::vector<void*> kept;
  vf::Rng r(seed);
  std::vector<void*> drop;
  for (int i = 0; i < 60; ++i) {
    size_t n = 1 + r.below(r.chance(1, 6) ? 5000 : 300);
    void* p = malloc(n);
    memset(p, (int)r.below(256), n);
    if (i % 20 == 0 && kept.size() < 20000) kept.push_back(p); else drop.push_back(p);
  }
  for (size_t i = 0; i < drop.size(); ++i) free(drop[i]);
}

struct Grouping : std::numpunct<char> {  // a locale that writes 1.234.567
  std::string size;
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return size; }
};
}  // namespace

void verif_exit(int code) __attribute__((noreturn));
void verif_exit(int code) {
  if (g_in_case) throw ExitCalled{code};
  exit(code);
}

int main(int argc, char** argv) {
  if (argc < 3) return 9;
  if (const char* l = getenv("VERIF_LOCALE")) {
    if (!setlocale(LC_ALL, l)) return 9;
    const char* g = getenv("VERIF_GROUPING");
    Grouping* grouping = new Grouping;
    grouping->size = std::string(1, (char)(g ? atoi(g) : 3));
    std::locale::global(std::locale(std::locale::classic(), grouping));
    setlocale(LC_ALL, l);   // which a C++ locale without a name leaves alone, or not
  }
  std::string data;
  {
    FILE* f = fopen(argv[1], "rb");
    if (!f) return 9;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) data.append(buf, n);
    fclose(f);
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return 9;
  signal(SIGPROF, vf::on_cpu_limit);
  unsigned limit = getenv("VERIF_CASE_CPU") ? atoi(getenv("VERIF_CASE_CPU")) : 20;
  size_t o = 0;
  while (o < data.size()) {
    Fields in, out;
    uint32_t n = get32(data, o);
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t len = get32(data, o);
      in.push_back(data.substr(o, len));
      o += len;
    }
    vf::arm_watchdog(limit);
    if (getenv("VERIF_HEAP")) dirty_heap(o * 31 + atoi(getenv("VERIF_HEAP")));
    if (getenv("VERIF_STACK")) dirty_stack(atoi(getenv("VERIF_STACK")));
    g_in_case = true;
    try {
      dispatch(in, out);
    } catch (const std::exception& e) {  // would have ended a real caller
      out.assign(1, "?exception");
      out.push_back(e.what());
    } catch (ExitCalled e) {
      out.assign(1, "?exit");
      out.push_back(num(e.code));
    }
    g_in_case = false;
    vf::arm_watchdog(0);
    std::string rec;
    put32(rec, out.size());
    for (size_t i = 0; i < out.size(); ++i) { put32(rec, out[i].size()); rec += out[i]; }
    if (write(fd, rec.data(), rec.size()) != (ssize_t)rec.size()) return 9;
  }
  close(fd);
  return 0;
}
