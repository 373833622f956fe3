// Allocations that are made to fail, and what was acquired and not released.  To be
// linked with --wrap of the functions wrapped here.
#ifndef VERIF_FAULTS_H
#define VERIF_FAULTS_H

#include "common.h"
#include <diagnostic/Exception.h>
#include <cerrno>
#include <new>

using namespace vf;

// -- faults -------------------------------------------------------------------
static struct Faults {
  bool armed, persistent;
  uint64_t at, sites;
  int hit;            // 0: none, 1: the containers' own (malloc family), 2: operator new, 3: those of OpenSSL
  int only;           // not 0: of this kind only
} F;
static bool fails(int kind) {
  if (!F.armed || quiet() || (F.only ? F.only != kind : kind == 3)) return false;
  ++F.sites;
  if (F.persistent ? F.sites < F.at : F.sites != F.at) return false;
  if (!F.hit) F.hit = kind;
  return true;
}

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
}
// What the code under test acquired and did not release.
template<class T> struct Raw {
  typedef T value_type;
  Raw() {}
  template<class U> Raw(const Raw<U>&) {}
  T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __real_free(p); }
  bool operator==(const Raw&) const { return true; }
  bool operator!=(const Raw&) const { return false; }
};
typedef std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, Raw<void*> > Blocks;
static Blocks& blocks() { static Blocks* s = new (__real_malloc(sizeof(Blocks))) Blocks; return *s; }
static void took(void* p) { if (p && !quiet()) blocks().insert(p); }
static void gave(void* p) { if (p) blocks().erase(p); }

extern "C" {
void* __wrap_malloc(size_t n) { if (fails(1)) { errno = ENOMEM; return 0; } void* p = __real_malloc(n); took(p); return p; }
void* __wrap_calloc(size_t n, size_t m) { if (fails(1)) { errno = ENOMEM; return 0; } void* p = __real_calloc(n, m); took(p); return p; }
void* __wrap_realloc(void* o, size_t n) {
  if (fails(1)) { errno = ENOMEM; return 0; }
  void* p = __real_realloc(o, n);
  if (p) { gave(o); took(p); }
  return p;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fails(1)) { errno = ENOMEM; return 0; } void* p = __real_aligned_alloc(a, n); took(p); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (fails(1)) return ENOMEM; int e = __real_posix_memalign(o, a, n); if (!e) took(*o); return e; }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; void* p = __wrap_malloc(n); return p ? (char*)memcpy(p, s, n) : 0; }
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void __wrap_free(void* p) { gave(p); __real_free(p); }
}
void* operator new(size_t n) { if (fails(2)) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) abort(); took(p); return p; }
void operator delete(void* p) noexcept { gave(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { gave(p); __real_free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

enum { DONE, FAILED };
// Runs an operation under the fault; checks what it throws.  much: it may ask for more than there is.
template<class Fn> static int attempt(Fn fn, const char* op, bool much = false) {
  int r = DONE;
  F.armed = true;
  try { fn(); F.armed = false; }
  catch (const eni::BadAlloc<eni::NoMemory>& e) {
    F.armed = false;
    r = FAILED;
    VF_CHECK(F.hit || much, op << ": 'no memory' though no allocation failed");
    VF_CHECK(!strcmp(e.what(), "no memory"), op << ": the exception says " << e.what());
  }
  catch (const std::bad_alloc& e) {
    F.armed = false;
    r = FAILED;
    VF_CHECK(F.hit == 2, op << ": " << (F.hit ? "an undocumented exception" : "bad_alloc though no allocation failed"));
  }
  catch (const std::exception& e) { F.armed = false; VF_CHECK(false, op << ": throws " << e.what() << " for lack of memory"); }
  return r;
}

#endif
