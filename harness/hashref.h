// The string hash functions by their definitions.
#ifndef VERIF_HASHREF_H
#define VERIF_HASHREF_H
#include <cassert>
#include <cstdint>
#include <cstring>
#include <string>
#include <diagnostic/Exception.h>
#include <adt/StringHasher.h>
// Written independently of the library, on explicit 32-bit arithmetic.
static uint32_t sx(char c) { return (uint32_t)(int32_t)(signed char)c; }   // how char extends on this platform
static uint32_t ref(int which, const std::string& s) {
  using namespace eni::internal;
  uint32_t h = 0, a = 63689;
  size_t n = s.size();
  switch (which) {
    case RS: for (char c : s) { h = h * a + sx(c); a *= 378551u; } return h;
    case JS: h = 1315423911u; for (char c : s) h = h ^ ((h << 5) + sx(c) + (h >> 2)); return h;
    case PJW: for (char c : s) { h = (h << 4) + sx(c); uint32_t t = h & 0xF0000000u; if (t) h = (h ^ (t >> 24)) & 0x0FFFFFFFu; } return h;
    case ELF: for (char c : s) { h = (h << 4) + sx(c); uint32_t x = h & 0xF0000000u; h ^= x >> 24; h &= ~x; } return h;
    case BKDR: for (char c : s) h = h * 131u + sx(c); return h;
    case SDBM: for (char c : s) h = h * 65599u + sx(c); return h;
    case DJB: h = 5381; for (char c : s) h = h * 33u + sx(c); return h;
    case DEK: h = (uint32_t)n; for (char c : s) h = ((h << 5) | (h >> 27)) ^ sx(c); return h;
    case BP: for (char c : s) h = (h << 7) ^ sx(c); return h;
    case FNV: for (char c : s) h = (h * 0x811C9DC5u) ^ sx(c); return h;
    case AP:
      h = 0xAAAAAAAAu;
      for (size_t i = 0; i < n; ++i)
        if (i % 2) h ^= ~((h << 11) + (sx(s[i]) ^ (h >> 5))); else h ^= (h << 7) ^ (sx(s[i]) * (h >> 3));
      return h;
    default: {
      uint32_t dots = 0;
      for (char c : s) {
        if (c == '.') { if (dots < 15) ++dots; }
        else if (c >= '0' && c <= '9') h |= 1u << 27;
        else if (c >= 'a' && c <= 'z') h |= 1u << (c - 'a');
        else if (c >= 'A' && c <= 'Z') h |= 1u << (c - 'A');
      }
      return h | (dots << 28);
    }
  }
}
#endif
