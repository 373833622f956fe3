// Texts, messages and sequences of 2 to 8 GiB: lengths that no int, and no unsigned int, holds.
//   --mode hasher | rsa | hex | json | vector | op
#include "common.h"
#include "hashref.h"
#include "keys.h"
#include <adt/Vector.h>
#include <eni.h>
#include <eni_crypto.h>
#include <json/Callbacks.h>
#include <json/Parser.h>
#include <json/Value.h>
#include <thread>

using namespace vf;
using namespace eni::internal;

static const size_t G2 = (size_t)1 << 31, G4 = (size_t)1 << 32;

template<uint32_t W> static uint32_t lib(const std::string& s) { StringHasher<W> h; return h(s); }
typedef uint32_t (*fn)(const std::string&);
static const fn LIB[] = {lib<RS>, lib<JS>, lib<PJW>, lib<ELF>, lib<BKDR>, lib<SDBM>, lib<DJB>, lib<DEK>, lib<BP>, lib<FNV>, lib<AP>, lib<ES>};
static const char* NAME[] = {"RS", "JS", "PJW", "ELF", "BKDR", "SDBM", "DJB", "DEK", "BP", "FNV", "AP", "ES"};

static void hasher(Rng& r, bool all) {
  std::string s(G4 + 6, '.');
  for (int i = 0; i < 3; ++i) s[r.below(G4)] = 'a' + (char)i;
  s[G4 + 3] = 'z'; s[G4 + 4] = 'Y'; s[G4 + 5] = '9';
  const std::string head(s, 0, 6);   // what is left of it in 32 bits
  uint32_t got[12], want[12];
  bool done[12] = {};
  std::vector<std::thread> ts;
  for (int w = 0; w < 12; ++w) ts.push_back(std::thread([&, w] { got[w] = LIB[w](s); want[w] = all || w == ELF || w == ES ? ref(w, s) : got[w]; done[w] = true; }));
  for (size_t i = 0; i < ts.size(); ++i) ts[i].join();
  for (int w = 0; w < 12; ++w) {
    VF_CHECK(done[w] && got[w] == want[w], NAME[w] << " of 2^32+6 bytes is " << got[w] << ", expected " << want[w]);
    VF_CHECK(w == ES || got[w] != ref(w, head), NAME[w] << " of 2^32+6 bytes is that of the first 6");
    stats().state(mix(got[w], w));
    stats().add("hashes");
  }
  VF_CHECK(StringHasher<ES>::may_include(lib<ES>("...."), got[11]) && StringHasher<ES>::may_include(lib<ES>(std::string(4000, '.') + "9"), got[11]),
           "may_include excludes a few dots from a text of 2^32 dots");
}

static void rsa(Rng& r) {
  for (int which = 0; which < 2; ++which) {
    const Key& k = KEYS[r.below(sizeof KEYS / sizeof *KEYS)];
    RSA* pub = eni_crypto::rsa::create_pubkey(k.pub);
    RSA* priv = eni_crypto::rsa::create_privkey(k.pkcs1);
    VF_CHECK(pub && priv, "a key is refused");
    // their lengths are those of a cipher text, if 32 bits of them are kept
    std::string m(which ? G4 + k.bytes : G2 + k.bytes, '\0'), out;
    m[k.bytes - 1] = 2;
    VF_CHECK(!eni_crypto::rsa::priv_decrypt(*priv, m, out), "priv_decrypt takes a cipher text of " << m.size() << " bytes, the key has " << k.bytes);
    VF_CHECK(!eni_crypto::rsa::pub_decrypt(*pub, m, out), "pub_decrypt takes a cipher text of " << m.size() << " bytes, the key has " << k.bytes);
    VF_CHECK(!eni_crypto::rsa::pub_encrypt(*pub, m, out), "pub_encrypt takes a message of " << m.size() << " bytes, the key has " << k.bytes);
    VF_CHECK(!eni_crypto::rsa::priv_encrypt(*priv, m, out), "priv_encrypt takes a message of " << m.size() << " bytes, the key has " << k.bytes);
    m.resize(k.bytes);
    VF_CHECK(eni_crypto::rsa::priv_decrypt(*priv, m, out) && eni_crypto::rsa::pub_decrypt(*pub, m, out), "a cipher text of the key's length is refused");
    eni_crypto::rsa::destroy(pub);
    eni_crypto::rsa::destroy(priv);
    stats().state(mix(which, k.bytes));
    stats().add("calls", 6);
  }
}

static void hex() {
  std::string b(G2 + 3, 'k'), h, back;
  b[0] = (char)0xfe; b[G2 - 1] = '\0'; b[G2 + 2] = (char)0x9c;
  VF_CHECK(eni_crypto::str2hex(b, h), "str2hex of 2^31+3 bytes is refused");
  VF_CHECK(h.size() == 2 * b.size(), "str2hex of 2^31+3 bytes gave " << h.size() << " characters");
  for (size_t i = 0; i < b.size(); ++i) {
    unsigned char c = b[i];
    VF_CHECK(h[2 * i] == "0123456789abcdef"[c >> 4] && h[2 * i + 1] == "0123456789abcdef"[c & 15], "the hexadecimal of byte " << i);
  }
  VF_CHECK(eni_crypto::hex2str(h, back) && back == b, "hex2str of 2^32+6 characters does not give the bytes back");
  h.pop_back();
  VF_CHECK(!eni_crypto::hex2str(h, back), "hex2str of an odd number of characters");
  h += 'g';
  VF_CHECK(!eni_crypto::hex2str(h, back), "hex2str takes a 'g' after 2^32 characters");
  stats().state(1);
  stats().add("calls", 4);
}


static bool parse(const std::string& t, json::Value& v) {
  json::Parser p(t);
  if (!p || !p.parse_end()) return false;
  v = p.getRoot();
  return true;
}

static void same(const std::string& got, const std::string& before, char fill, size_t n, const std::string& after, const char* what) {
  VF_CHECK(got.size() == before.size() + n + after.size(), what << " has " << got.size() << " bytes, not " << before.size() + n + after.size());
  VF_CHECK(!got.compare(0, before.size(), before), what << " begins with another text");
  size_t at = got.find_first_not_of(fill, before.size());
  VF_CHECK((at == std::string::npos ? got.size() : at) >= before.size() + n, what << " differs at byte " << at);
  VF_CHECK(!got.compare(before.size() + n, after.size(), after), what << " ends with another text");
}

static void json_text(bool huge) {
  const size_t n = huge ? G4 + 5 : G2 + 5;
  if (!huge) {   // (a longer one, copied as often as it is, does not fit into the memory)
    std::string t = "[\"";
    t.reserve(n + 100);
    t.append(n, 'x').append("\\\"\",-7]");
    json::Value v;
    VF_CHECK(parse(t, v), "a string of " << n << " characters is refused");
    t.back() = ' ';
    { json::Value w; VF_CHECK(!parse(t, w), "an array that is not closed after " << n << " characters is accepted"); }
    std::string().swap(t);
    VF_CHECK(v.isArray() && v.toArray().size() == 2 && v[1].isInteger() && v[1].toInteger() == -7, "the value after a string of " << n << " characters");
    same(v[0].toString(), "", 'x', n, "\"", "the string read");
    std::ostringstream os;
    v.print(os);
    std::string p = os.str();
    same(p, "[\"", 'x', n, "\\\"\",-7]", "the text printed");
  }
  {
    std::string t = "[";
    t.reserve(n + 100);
    t.append(n, ' ').append("1,");
    t.append(n / 8, '\n').append("true]");
    t.append(n / 8, '\t');
    json::Value v;
    VF_CHECK(parse(t, v) && v.toArray().size() == 2 && v[0].toInteger() == 1 && v[1].toBoolean(), "values after " << n << " spaces");
    t += '1';
    VF_CHECK(!parse(t, v), "a text after the value is overlooked");
  }
  stats().state(n);
  stats().add("calls", 4);
}

static void vector() {
  eni::Vector<char> v;
  for (size_t i = 0; i < 10; ++i) v.push_back((char)i);
  v.resize(G4 + 7);
  VF_CHECK(v.size() == G4 + 7 && v.capacity() >= v.size(), "size() is " << v.size() << " after resize(2^32+7)");
  for (size_t i = 0; i < 10; ++i) VF_CHECK(v[i] == (char)i, "element " << i << " was changed by a resize");
  v[G4 + 6] = 'e'; v.at(G4 + 3) = 'a'; v[3] = 't';
  VF_CHECK(v[G4 + 6] == 'e' && v.back() == 'e' && v.at(G4 + 3) == 'a' && v[6] == 6 && v[3] == 't', "elements whose positions differ by 2^32 are mixed up");
  v.push_back('p');
  VF_CHECK(v.size() == G4 + 8 && v.back() == 'p' && v[G4 + 6] == 'e', "push_back behind 2^32 elements");
  VF_CHECK((size_t)(v.end() - v.begin()) == G4 + 8 && *(v.begin() + (G4 + 3)) == 'a', "iterators 2^32 apart");
  bool out = false;
  try { v.at(G4 + 8); } catch (const std::out_of_range&) { out = true; }
  VF_CHECK(out, "at(size()) of 2^32+8 elements");
  v.pop_back();
  v.resize(G4 + 1);
  VF_CHECK(v.size() == G4 + 1 && v[3] == 't', "resize(2^32+1)");
  v.resize(2);
  VF_CHECK(v.size() == 2 && v[1] == 1, "resize(2)");
  stats().state(1);
  stats().add("calls", 20);
}

struct Op : eni::EniBase {
  Op(const std::string& a) : eni::EniBase(a) {}
  bool parse(const json::Array& a) override { m_Size = a[0].toString().size(); return true; }
  eni::Gas gas() const override { return m_Size; }
  bool run(json::Array& r) override { r.emplace_back(std::string(m_Size, 'r')); return true; }
  size_t m_Size;
};

static void op() {
  eni::Gas g;
  char* x;
  const size_t n = G2 + 9;
  {
    std::string t = "[\"";
    t.reserve(n + 10);
    t.append(n, 'a').append("\"]");
    Op o(t);
    std::string().swap(t);
    g = o.getGas();
    x = o.start();
  }
  VF_CHECK(g == n, "gas is " << g << " for a string of " << n << " characters");
  VF_CHECK(x && strlen(x) == n + 4, "the result has " << (x ? strlen(x) : 0) << " characters, not " << n + 4);
  std::string s(x);
  free(x);
  same(s, "[\"", 'r', n, "\"]", "the result");
  stats().state(1);
  stats().add("calls", 2);
}

static void one(Rng& r, uint64_t c, const Args& a) {
  arm_watchdog(a.mode == "hasher" && !a.size ? 240 : 600);
  if (a.mode == "hasher") hasher(r, a.size);
  else if (a.mode == "rsa") rsa(r);
  else if (a.mode == "hex") hex();
  else if (a.mode == "json") json_text(c % 2);
  else if (a.mode == "vector") vector();
  else op();
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
