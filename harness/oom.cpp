// Operations, parsing, printing, keys and text conversions in which the k-th allocation
// fails, once or from then on, for every k: the answer is that of a run with memory, or
// a failure; never another answer.
#include "faults.h"
#include "keys.h"
#include <eni.h>
#include <eni_crypto.h>
#include <eni_types.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <scrypt.h>
#include <openssl/crypto.h>

extern "C" {
char* reverse_run(char*);      uint64_t* reverse_gas(char*);
char* json_run(char*);         uint64_t* json_gas(char*);
char* scrypt_run(char*);       uint64_t* scrypt_gas(char*);
char* rsa_encrypt_run(char*);  uint64_t* rsa_encrypt_gas(char*);
char* rsa_decrypt_run(char*);  uint64_t* rsa_decrypt_gas(char*);
}

class Echo : public eni::EniBase
{
public:
  Echo(const std::string& pArgStr) : eni::EniBase(pArgStr) { }
private:
  bool parse(const json::Array& pArgs) override { m_Args = pArgs; return true; }
  eni::Gas gas() const override { return m_Args.size(); }
  bool run(json::Array& pRetVal) override {
    for (size_t i = 0; i < m_Args.size(); ++i) pRetVal.emplace_back(m_Args.at(i));
    return true;
  }
  json::Array m_Args;
};
ENI_C_INTERFACE(echo, Echo)

static std::string quoted(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') o += "\\n"; else if (s[i] == '"' || s[i] == '\\') { o += '\\'; o += s[i]; } else o += s[i];
  return o + "\"";
}
static std::string word(Rng& r, unsigned max) {
  std::string s;
  for (uint64_t n = r.below(max); n; --n) s += (char)('a' + r.below(26));
  return s;
}
static std::string json_text(Rng& r, int depth) {
  switch (r.below(depth > 3 ? 3 : 6)) {
    case 0: { std::string s = r.chance(1, 2) ? "-1" : "1"; for (uint64_t n = r.below(76); n; --n) s += (char)('0' + r.below(10)); return s; }
    case 1: return quoted(word(r, r.chance(1, 3) ? 600 : 30));
    case 2: return r.chance(1, 2) ? "true" : "false";
    case 3: case 4: { std::string s = "["; for (uint64_t n = r.below(4), i = 0; i < n; ++i) s += (i ? "," : "") + json_text(r, depth + 1); return s + "]"; }
    default: { std::string s = "{"; for (uint64_t n = r.below(4), i = 0; i < n; ++i) s += (i ? ",\"" : "\"") + word(r, 3) + "\":" + json_text(r, depth + 1); return s + "}"; }
  }
}
static std::string members(Rng& r) {
  std::string s;
  for (uint64_t n = r.below(6), i = 0; i < n; ++i) s += (i ? "," : "") + json_text(r, 1);
  return s;
}

// The text of a value, member by member.
static void dump(const json::Value& v, std::string& o) {
  if (v.isInteger()) o += v.toInteger().str();
  else if (v.isBoolean()) o += v.toBoolean() ? 'T' : 'F';
  else if (v.isString()) o += "'" + v.toString() + "'";
  else if (v.isArray()) { const json::Array& a = v.toArray(); o += '['; for (size_t i = 0; i < a.size(); ++i) { dump(a[(int)i], o); o += ','; } o += ']'; }
  else if (v.isObject()) { const json::Object& a = v.toObject(); o += '{'; for (json::Object::const_iterator i = a.begin(); i != a.end(); ++i) { o += i->key() + ":"; dump(i->value(), o); } o += '}'; }
  else o += 'u';
}

struct Job { int kind, op, key; std::string text; };
static const struct Op { const char* name; char* (*run)(char*); uint64_t* (*gas)(char*); } OPS[] = {
  {"reverse", reverse_run, reverse_gas}, {"json", json_run, json_gas}, {"scrypt", scrypt_run, scrypt_gas},
  {"rsa_encrypt", rsa_encrypt_run, rsa_encrypt_gas}, {"rsa_decrypt", rsa_decrypt_run, rsa_decrypt_gas}, {"echo", echo_run, echo_gas}};
enum { RUN, GAS, PARSE, PRINT, HEX, RSA_CALLS, KINDS };
static const char* KIND[] = {"run", "gas", "parse", "print", "hex", "rsa"};

static Job make(Rng& r) {
  Job t;
  t.kind = (int)r.below(KINDS + 4);
  if (t.kind >= KINDS) t.kind = r.chance(1, 3) ? GAS : RUN;
  t.op = (int)r.below(6);
  t.key = (int)r.below(3);
  const Key& k = KEYS[t.key];
  switch (t.kind) {
    case RUN: case GAS: break;
    case PARSE: t.text = json_text(r, 0); if (r.chance(1, 4)) t.text = t.text.substr(0, t.text.size() / 2) + "!"; return t;
    case PRINT: t.text = json_text(r, 0); return t;
    case HEX: for (uint64_t n = r.below(r.chance(1, 4) ? 3000 : 60); n; --n) t.text += (char)r.next(); return t;
    default: t.text = word(r, k.bytes); return t;
  }
  switch (t.op) {
    case 0: t.text = "[" + quoted(word(r, r.chance(1, 3) ? 900 : 40)) + "]"; break;
    case 1: {
      // (calls that the operation defines: see known.h)
      static const char* O[] = {"parseArray", "parseString", "arrayGet", "objectGet"};
      uint64_t o = r.below(4), n = 1 + r.below(5);
      std::string d = o == 1 ? quoted(word(r, 20)) : "[" + members(r) + "]";
      if (o >= 2) {
        d = o == 2 ? "[" : "{";
        for (uint64_t i = 0; i < n; ++i) d += (i ? "," : "") + (o == 2 ? "" : quoted("k" + std::to_string(i)) + ":") + json_text(r, 2);
        d += o == 2 ? "]" : "}";
      }
      t.text = "[\"" + std::string(O[o]) + "\"," + quoted(d) + ",0," + std::to_string(d.size()) + (o == 2 ? "," + std::to_string(r.below(n)) : o == 3 ? ",\"k" + std::to_string(r.below(n)) + "\"" : "") + "]";
      break;
    }
    case 2: { std::string h; for (uint64_t n = r.below(161); n; --n) h += "0123456789abcdef"[r.below(16)]; t.text = "[\"" + h + "\"]"; break; }
    case 3: t.text = "[" + quoted(k.pub) + "," + quoted(word(r, k.bytes + 3)) + "]"; break;
    case 4: { std::string h = "00"; for (int i = 1; i < k.bytes; ++i) { h += "0123456789abcdef"[r.below(16)]; h += '7'; } t.text = "[" + quoted(r.chance(1, 2) ? k.pkcs1 : k.pkcs8) + "," + quoted(h) + "]"; break; }
    default: t.text = "[" + members(r) + "]";
  }
  if (r.chance(1, 10) && t.op > 1) t.text = "[1]";
  return t;
}

static const char NOTHING[] = "(fails)";
// What the code under test answers, or NOTHING; whatever it throws passes through.
static std::string perform(const Job& t, const json::Value& shown) {
  std::string out;
  switch (t.kind) {
    case RUN: {
      std::string copy;
      { Quiet q; copy = t.text; }
      char* s = OPS[t.op].run(&copy[0]);
      Quiet q;
      out = s ? s : NOTHING;
      free(s);
      return out;
    }
    case GAS: {
      std::string copy;
      { Quiet q; copy = t.text; }
      uint64_t* g = OPS[t.op].gas(&copy[0]);
      Quiet q;
      out = g ? std::to_string(*g) : NOTHING;
      free(g);
      return out;
    }
    case PARSE: {
      json::Parser p(t.text);
      bool ok = !!p && p.parse_end();
      Quiet q;
      if (!ok) return "malformed";
      dump(p.getRoot(), out);
      return out;
    }
    case PRINT: {
      std::ostringstream os;
      shown.print(os);
      Quiet q;
      if (!os) return NOTHING;    // the stream tells
      return os.str();
    }
    case HEX: {
      std::string h, b, bad;
      if (!eni_crypto::str2hex(t.text, h)) return NOTHING;
      if (!eni_crypto::hex2str(h, b)) return NOTHING;
      bool odd = eni_crypto::hex2str(h + "a", bad);
      Quiet q;
      return h + (b == t.text ? " back" : " not back") + (odd ? " odd" : "");
    }
    default: {
      const Key& k = KEYS[t.key];
      std::string c, d;
      struct Keys { RSA *pub, *priv; ~Keys() { eni_crypto::rsa::destroy(pub); eni_crypto::rsa::destroy(priv); } } ks = {0, 0};
      std::string pub, priv;
      { Quiet q; pub = k.pub; priv = k.pkcs8; }
      ks.pub = eni_crypto::rsa::create_pubkey(pub);
      ks.priv = eni_crypto::rsa::create_privkey(priv);
      if (!ks.pub || !ks.priv) return NOTHING;
      if (!eni_crypto::rsa::pub_encrypt(*ks.pub, t.text, c)) return NOTHING;
      if (!eni_crypto::rsa::priv_decrypt(*ks.priv, c, d)) return NOTHING;
      Quiet q;
      return c + ":" + d;
    }
  }
}

static void one(Rng& r, uint64_t c, const Args& a) {
  Job t;
  json::Value shown;
  {
    Quiet q;
    t = make(r);
    F.only = 0;
    if (a.mode == "openssl") {
      F.only = 3;
      while ((t.kind > GAS || t.op < 3 || t.op > 4) && t.kind != RSA_CALLS) t = make(r);
    }
    if (t.kind == PRINT) { json::Parser p(t.text); shown = p.getRoot(); }
  }
  F.armed = false;
  std::string want;
  for (int i = 0; i < 2; ++i) {       // twice: first uses may keep memory for good
    { Quiet q; blocks().clear(); }
    std::string w = perform(t, shown);
    Quiet q;
    want = w;
  }
  std::string name;
  { Quiet q; name = t.kind <= GAS ? std::string(OPS[t.op].name) + "_" + KIND[t.kind] : KIND[t.kind]; }
  uint64_t step = 1;
  for (int p = 0; p < 2; ++p)
    for (uint64_t at = 1; ; at += step) {
      F.persistent = p; F.at = at; F.sites = 0; F.hit = 0;
      { Quiet q; blocks().clear(); trace() = name + (p ? ", all from" : ", only") + " allocation " + std::to_string(at) + " failing: " + t.text; trace().reserve(9000); }
      bool failed = false;
      std::string got;
      F.armed = true;
      try { std::string g = perform(t, shown); F.armed = false; Quiet q; got = g; failed = got == NOTHING; }
      catch (const std::bad_alloc&) { F.armed = false; failed = true; }
      catch (const std::exception& e) { F.armed = false; VF_CHECK(false, "throws " << e.what() << " for lack of memory"); }
      Quiet q;
      VF_CHECK(!failed || F.hit || want == NOTHING, "fails though no allocation failed");
      if (F.hit == 3 && t.kind == GAS && got == "1500") failed = true;   // refused
      VF_CHECK(failed || got == want, "answers " << esc(got).substr(0, 200) << " with an allocation failing, otherwise " << esc(want).substr(0, 200));
      VF_CHECK(blocks().empty(), blocks().size() << " blocks of memory were not released");
      stats().state(mix(mix(mix(hash_str(t.text), at), p * 8 + t.kind), F.hit));
      stats().add("calls");
      if (F.hit) stats().add((failed ? "failed " : "not affected ") + name);
      stats().max("max_sites", F.sites);
      if (c < 8 && at == 2) sample(trace().substr(0, 250));
      if (!F.hit) break;
      if (at > 300) step = 1 + r.below(1 + at / 40);   // very many: not all
      arm_watchdog(a.watchdog);
    }
  std::string again = perform(t, shown);
  Quiet q;
  VF_CHECK(again == want, "answers " << esc(again).substr(0, 200) << " afterwards, otherwise " << esc(want).substr(0, 200));
}

static void* ssl_malloc(size_t n, const char*, int) { return fails(3) ? 0 : __real_malloc(n); }
static void* ssl_realloc(void* p, size_t n, const char*, int) { return fails(3) ? 0 : __real_realloc(p, n); }
static void ssl_free(void* p, const char*, int) { __real_free(p); }

int main(int argc, char** argv) {
  CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free);
  return run_cases(argc, argv, one);
}
