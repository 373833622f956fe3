// Coverage-guided fuzzing of the C interface inside one process.  The code under
// test is compiled with -fsanitize-coverage=trace-pc; sanitizers are the oracle.
// A case is one operation; --size is the number of inputs.
#include "common.h"
#include "keys.h"
#include "known.h"
#include <eni.h>
#include <iostream>
#include <json/Parser.h>
#include <sanitizer/common_interface_defs.h>

using namespace vf;

extern "C" {
char* reverse_run(char*);      uint64_t* reverse_gas(char*);
char* json_run(char*);         uint64_t* json_gas(char*);
char* scrypt_run(char*);       uint64_t* scrypt_gas(char*);
char* rsa_encrypt_run(char*);  uint64_t* rsa_encrypt_gas(char*);
char* rsa_decrypt_run(char*);  uint64_t* rsa_decrypt_gas(char*);
}

class Echo : public eni::EniBase
{
public:
  Echo(const std::string& pArgStr) : eni::EniBase(pArgStr) { }
private:
  bool parse(const json::Array& pArgs) override { m_Args = pArgs; return true; }
  eni::Gas gas() const override { return m_Args.size(); }
  bool run(json::Array& pRetVal) override {
    for (size_t i = 0; i < m_Args.size(); ++i) pRetVal.emplace_back(m_Args.at(i));
    return true;
  }
  json::Array m_Args;
};
ENI_C_INTERFACE(echo, Echo)

// -- coverage ------------------------------------------------------------------
enum { MAP = 1 << 16 };
static unsigned char g_hits[MAP], g_seen[MAP];
static uintptr_t g_prev;
static bool g_on;
extern "C" void __sanitizer_cov_trace_pc() {
  if (!g_on) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  uintptr_t h = (pc ^ (pc >> 15)) * 0x9E3779B1u;
  unsigned char& c = g_hits[((h >> 8) ^ g_prev) & (MAP - 1)];
  if (c < 255) ++c;
  g_prev = (h >> 9) & (MAP - 1);
}
static unsigned char bucket(unsigned char c) { return c <= 3 ? c : c < 8 ? 4 : c < 32 ? 8 : c < 128 ? 16 : 32; }
static bool news() {
  bool n = false;
  for (int i = 0; i < MAP; i += 8) {
    if (*(uint64_t*)(g_hits + i) == 0) continue;
    for (int j = i; j < i + 8; ++j) {
      if (!g_hits[j]) continue;
      unsigned char b = 1 << (bucket(g_hits[j]) % 8);
      if (!(g_seen[j] & b)) { g_seen[j] |= b; n = true; }
    }
  }
  return n;
}

struct ExitCalled { int code; };
static bool g_in_case;
void verif_exit(int code) __attribute__((noreturn));
void verif_exit(int code) {
  if (g_in_case) throw ExitCalled{code};
  exit(code);
}

static std::string g_input;
static const char* g_op = "";
static void died() {
  fprintf(stderr, "\nINPUT %s %s\n", g_op, esc(g_input.substr(0, 290)).c_str());
  static const char hex[] = "0123456789abcdef";
  std::string h;
  for (size_t i = 0; i < g_input.size() && i < 20000; ++i) { h += hex[(unsigned char)g_input[i] >> 4]; h += hex[g_input[i] & 15]; }
  fprintf(stderr, "HEX %s\n", h.c_str());
}

struct Op { const char* name; char* (*run)(char*); uint64_t* (*gas)(char*); };
static const Op OPS[] = {{"echo", echo_run, echo_gas}, {"json", json_run, json_gas}, {"reverse", reverse_run, reverse_gas},
                         {"rsa_decrypt", rsa_decrypt_run, rsa_decrypt_gas}, {"rsa_encrypt", rsa_encrypt_run, rsa_encrypt_gas},
                         {"scrypt", scrypt_run, scrypt_gas}};

static const char* WORDS[] = {"[", "]", "{", "}", ":", ",", "\"", "\\", "\\u00", "\\u0000", "\\uFFFF", "\\n", "\\\"", "true", "false", "null", "-", "0", "1", "-1",
  "9999999999999999999999999999999999999999999999999999999999999999999999999999", "2147483647", "2147483648", "4294967296", "18446744073709551616", "e", ".",
  "parseArray", "parseString", "arrayGet", "objectGet", "\"a\"", "[]", "{}", "[[[[[[[[", "]]]]]]]]", "{\"a\":", " ", "\t", "\xff", "\x80", "\x01",
  "-----BEGIN PUBLIC KEY-----\\n", "\\n-----END PUBLIC KEY-----\\n", "M", "A", "=", "00", "ff"};

static std::string quoted(const char* s) {
  std::string o = "\"";
  for (; *s; ++s) if (*s == '\n') o += "\\n"; else if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else o += *s;
  return o + "\"";
}

static void seeds(const std::string& op, Rng& r, std::vector<std::string>& c) {
  static const char* J[] = {
    "[]", "[1]", "[\"abc\"]", "[\"a\\u0062\\n\\\\\\\"\", -12, true, false, {\"k\":[1,{\"z\":\"y\"}]}, [[]], {}]", "{\"a\":1}", "5", "\"x\"", "",
    "[\"parseArray\",\"[1,\\\"ab\\\",{\\\"c\\\":3}]\",0,16]", "[\"parseString\",\"\\\"ab\\\"\",0,4]", "[\"arrayGet\",\"[1,[2,3],4]\",0,11,1]",
    "[\"objectGet\",\"{\\\"a\\\":1,\\\"b\\\":{\\\"c\\\":[]}}\",0,20,\"b\"]", "[\"arrayGet\",\"[1,2]\",1,3,0]", "[\"objectGet\",\"[{}]\",1,3,\"\"]",
    "[\"000000\"]", "[115792089237316195423570985008687907853269984665640564039457584007913129639935]"};
  for (size_t i = 0; i < sizeof J / sizeof *J; ++i) c.push_back(J[i]);
  for (int i = 0; i < 3; ++i) {
    const Key& k = KEYS[r.below(NKEYS)];
    if (op == "rsa_encrypt") {
      c.push_back("[" + quoted(k.pub) + ",\"abc\"]");
      c.push_back("[" + quoted(k.pub) + ",\"" + std::string(k.bytes + r.below(3) - 1, 'a') + "\"]");
    } else if (op == "rsa_decrypt") {
      c.push_back("[" + quoted(k.pkcs1) + ",\"" + std::string(2 * k.bytes, '1') + "\"]");
      c.push_back("[" + quoted(k.pkcs8) + ",\"00\"]");
    }
  }
  if (op == "scrypt") for (int i = 150; i < 165; ++i) c.push_back("[\"" + std::string(i, 'a') + "\"]");
}

// Changes inside the strings and numbers of a text that is well formed.
static std::string tweak(std::string s, Rng& r) {
  static const char* SAFE[] = {"a", "0", "1", "[", "]", "{", "}", ":", ",", "\\\"", "\\\\", "\\u00ff", "\\u0000", "\\u0022", " ", "-", "true", "1,", "\\\"b\\\":", "\\n", "f", "\xc3", "."};
  for (uint64_t n = 1 + r.below(5); n; --n) {
    std::vector<size_t> in;      // places inside strings that are not in an escape
    bool str = false;
    for (size_t i = 0; i < s.size(); ++i) {
      if (!str) { if (s[i] == '"') str = true; continue; }
      in.push_back(i);
      if (s[i] == '\\') { i += i + 1 < s.size() && s[i + 1] == 'u' ? 5 : 1; }
      else if (s[i] == '"') str = false;
    }
    if (!in.empty() && r.chance(3, 4)) {
      size_t k = r.below(in.size()), p = in[k];
      if (r.chance(1, 2) || k + 1 >= in.size() || in[k + 1] <= p || s[p] == '"') s.insert(p, SAFE[r.below(sizeof SAFE / sizeof *SAFE)]);
      else s.erase(p, in[k + 1] - p);
    } else {
      size_t d = s.find_last_of("0123456789", r.below(s.size() + 1));
      if (d == std::string::npos) continue;
      size_t e = d + 1;
      while (d > 0 && isdigit((unsigned char)s[d - 1])) --d;
      std::string v = r.chance(1, 3) ? std::to_string(r.below(70)) : std::to_string((long)r.below(4) + (1l << r.below(40)));
      s.replace(d, e - d, v);
    }
  }
  return s;
}

static std::string mutate(const std::vector<std::string>& corpus, Rng& r) {
  std::string s = corpus[r.below(corpus.size())];
  if (r.chance(1, 2)) s = tweak(s, r);
  if (r.chance(1, 2)) { for (size_t i = 0; i < s.size(); ++i) if (!s[i]) s[i] = 1; return s; }
  for (uint64_t n = 1 + r.below(r.chance(1, 3) ? 8 : 2); n; --n) {
    size_t p = r.below(s.size() + 1), q = r.below(s.size() - p + 1);
    switch (r.below(10)) {
      case 0: if (p < s.size()) s[p] = (char)(1 + r.below(255)); break;
      case 1: if (p < s.size()) s[p] ^= 1 << r.below(8); break;
      case 2: s.erase(p, r.below(2) ? q : 1); break;
      case 3: s.insert(p, std::string(1 + (r.chance(1, 8) ? r.below(300) : 0), (char)(1 + r.below(255)))); break;
      case 4: case 5: s.insert(p, WORDS[r.below(sizeof WORDS / sizeof *WORDS)]); break;
      case 6: { const std::string& o = corpus[r.below(corpus.size())]; size_t a = r.below(o.size() + 1); s.insert(p, o, a, r.below(o.size() - a + 1)); break; }
      case 7: s.insert(p, s.substr(p, q)); break;
      case 8: { const std::string& o = corpus[r.below(corpus.size())]; s = s.substr(0, p) + o.substr(std::min(o.size(), p)); break; }
      default: {  // change a number
        size_t d = s.find_first_of("0123456789", p);
        if (d != std::string::npos) {
          static const char* N[] = {"0", "-1", "1", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615"};
          size_t e = s.find_first_not_of("0123456789", d);
          if (e == std::string::npos) e = s.size();
          s.replace(d, e - d, r.chance(1, 2) ? N[r.below(10)] : std::to_string(r.below(40)));
        }
      }
    }
    if (s.size() > 6000) s.resize(6000);
  }
  for (size_t i = 0; i < s.size(); ++i) if (!s[i]) s[i] = 1;
  return s;
}

static void one(Rng& r, uint64_t c, const Args& a) {
  const Op& op = OPS[c % 6];
  g_op = op.name;
  long n = a.size ? a.size : 1000;
  if (!strncmp(op.name, "rsa", 3)) n /= 2;
  std::vector<std::string> corpus, todo;
  seeds(op.name, r, corpus);
  todo = corpus;
  memset(g_seen, 0, sizeof g_seen);
  std::ostringstream sink;
  std::streambuf* old = std::cerr.rdbuf(sink.rdbuf());
  for (long i = 0; i < n; ++i) {
    g_input = i < (long)todo.size() ? todo[i] : mutate(corpus, r);
    if (known_defect(op.name, g_input)) { stats().add("left out: known findings"); continue; }
    char* buf = (char*)malloc(g_input.size() + 1);
    memcpy(buf, g_input.c_str(), g_input.size() + 1);
    memset(g_hits, 0, sizeof g_hits);
    g_prev = 0;
    g_in_case = g_on = true;
    const char* what = "value";
    try {
      void* p = i & 1 ? (void*)op.gas(buf) : (void*)op.run(buf);
      g_on = false;
      if (!p) what = "null";
      free(p);
    } catch (ExitCalled e) {
      g_on = false;
      what = "exit";
      trace() = op.name + (" " + esc(g_input));
      VF_CHECK(e.code == 87, "exit status " << e.code);
    } catch (const std::exception& e) {
      g_on = false;
      trace() = op.name + (" " + esc(g_input));
      VF_CHECK(false, "uncaught exception: " << e.what());
    }
    g_in_case = false;
    trace() = op.name + (" " + esc(g_input));
    VF_CHECK(!memcmp(buf, g_input.c_str(), g_input.size() + 1), "the argument text was written to");
    free(buf);
    bool fresh = news();
    if (fresh && corpus.size() < 3000) { corpus.push_back(g_input); stats().state(hash_str(g_input, hash_str(op.name))); stats().add("new coverage"); }
    stats().add("inputs");
    stats().add(std::string(op.name) + " " + what);
    sink.str("");
  }
  std::cerr.rdbuf(old);
  size_t edges = 0;
  for (int i = 0; i < MAP; ++i) edges += g_seen[i] != 0;
  stats().max(std::string("max_edges_") + op.name, edges);
  for (int i = 0; i < 3; ++i) sample(op.name + (" " + corpus[corpus.size() - 1 - i]).substr(0, 150));
}

int main(int argc, char** argv) {
  __sanitizer_set_death_callback(died);
  return run_cases(argc, argv, one);
}
