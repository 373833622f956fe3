// The examples reverse and json (which may not be changed here) use some of their
// arguments without looking at them first.  known_defect() tells whether a call
// would do so: these calls are undefined, and are made only to show the finding.
// Everything else, malformed text included, is called.
#ifndef VERIF_KNOWN_H
#define VERIF_KNOWN_H
#include <json/Array.h>
#include <json/Parser.h>
#include <json/Value.h>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>

namespace vf {
class JsonText {   // is [b, e) one JSON value?  What kind, how many tokens on the level below?
public:
  bool valid;
  char kind;        // '[' '{' '"' '0'
  size_t tokens;
  JsonText(const char* b, const char* e) : valid(false), kind('0'), tokens(0), m_p(b), m_e(e) {
    ws();
    kind = m_p < m_e ? *m_p : '0';
    valid = value(0);
    ws();
    if (m_p != m_e) valid = false;
  }

private:
  const char *m_p, *m_e;
  void ws() { while (m_p < m_e && (*m_p == ' ' || *m_p == '\t' || *m_p == '\n' || *m_p == '\r')) ++m_p; }
  bool eat(char c) { if (m_p < m_e && *m_p == c) { ++m_p; return true; } return false; }
  bool word(const char* w) { size_t n = strlen(w); if ((size_t)(m_e - m_p) < n || memcmp(m_p, w, n)) return false; m_p += n; return true; }
  bool digits() { const char* s = m_p; while (m_p < m_e && *m_p >= '0' && *m_p <= '9') ++m_p; return m_p > s; }
  bool string() {
    if (!eat('"')) return false;
    while (m_p < m_e && *m_p != '"') {
      if (!*m_p) return false;
      if (*m_p++ != '\\') continue;
      if (m_p >= m_e) return false;
      char c = *m_p++;
      if (c == 'u') {
        for (int i = 0; i < 4; ++i, ++m_p) if (m_p >= m_e || !isxdigit((unsigned char)*m_p)) return false;
      } else if (!c || !strchr("\"\\/bfnrt", c)) return false;
    }
    return eat('"');
  }
  bool value(unsigned depth) {
    ws();
    if (m_p >= m_e || depth > 20000) return false;
    switch (*m_p) {
      case '"': return string();
      case 't': return word("true");
      case 'f': return word("false");
      case 'n': return word("null");
      case '[': case '{': {
        bool object = *m_p++ == '{';
        char end = object ? '}' : ']';
        ws();
        if (eat(end)) return true;
        do {
          if (object) {
            ws();
            if (!string()) return false;
            ws();
            if (!eat(':')) return false;
          }
          if (depth == 0) tokens += object ? 2 : 1;
          if (!value(depth + 1)) return false;
          ws();
        } while (eat(','));
        return eat(end);
      }
      default:
        eat('-');
        if (!digits()) return false;
        if (eat('.') && !digits()) return false;
        if (m_p < m_e && (*m_p == 'e' || *m_p == 'E')) { ++m_p; if (!eat('+')) eat('-'); return digits(); }
        return true;
    }
  }
};

inline const char* known_defect(const std::string& op, const std::string& text) {
  if (op != "reverse" && op != "json") return 0;
  struct Silent {
    std::ostringstream os;
    std::streambuf* old;
    Silent() : old(std::cerr.rdbuf(os.rdbuf())) {}
    ~Silent() { std::cerr.rdbuf(old); }
  } silent;
  json::Parser parser(text.c_str());
  if (!parser || !parser.getRoot().isArray()) return 0;
  const json::Array& a = parser.getRoot().toArray();
  if (op == "reverse")
    return a.size() >= 1 && a.at(0).isString() ? 0 : "reverse-arguments";
  if (a.size() < 4 || !a.at(0).isString() || !a.at(1).isString() || !a.at(2).isInteger() || !a.at(3).isInteger())
    return "json-arguments";
  const std::string &what = a.at(0).toString(), &data = a.at(1).toString();
  if (what != "parseString" && what != "parseArray" && what != "arrayGet" && what != "objectGet") return 0;
  if (what == "arrayGet" && (a.size() < 5 || !a.at(4).isInteger())) return "json-arguments";
  if (what == "objectGet" && (a.size() < 5 || !a.at(4).isString())) return "json-arguments";
  const eni::s256 &b = a.at(2).toInteger(), &e = a.at(3).toInteger();
  if (b < 0 || e < b || e > data.size()) return "json-span";
  size_t begin = (size_t)(long)b, end = (size_t)(long)e;
  if (what == "parseString") {  // reads `end` characters from `begin` on
    std::string c = data.c_str();
    if (begin > c.size()) return "json-span";
    json::Parser p(c.substr(begin, end));
    return !p || p.getRoot().isString() ? 0 : "json-not-a-string";
  }
  JsonText t(data.data() + begin, data.data() + end);
  if (!t.valid) return "json-not-json";
  if (what == "arrayGet") {
    const eni::s256& i = a.at(4).toInteger();
    if ((t.kind != '[' && t.kind != '{') || i < 0 || i >= t.tokens) return "json-index";
  }
  if (what == "objectGet" && t.kind == '[') return "json-not-an-object";
  return 0;
}
}  // namespace vf
#endif
