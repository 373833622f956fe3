// Preloaded: the sources of time, chance, identity and environment, all telling something else than they would.
// Environment variables are invented only for the program itself, so that the libraries under it work.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>

static unsigned long n = 88172645463325252ul;
static unsigned long next(void) { n ^= n << 13; n ^= n >> 7; n ^= n << 17; return n; }

time_t time(time_t* t) { time_t v = (time_t)(next() % 4000000000ul); if (t) *t = v; return v; }
int gettimeofday(struct timeval* t, void* z) { (void)z; t->tv_sec = (time_t)(next() % 4000000000ul); t->tv_usec = (long)(next() % 1000000); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) { (void)c; t->tv_sec = (time_t)(next() % 4000000000ul); t->tv_nsec = (long)(next() % 1000000000); return 0; }
clock_t clock(void) { return (clock_t)next(); }
int rand(void) { return (int)(next() & 0x7fffffff); }
int rand_r(unsigned* s) { (void)s; return rand(); }
long random(void) { return (long)(next() & 0x7fffffff); }
double drand48(void) { return (double)(next() % 1000) / 1000; }
long lrand48(void) { return random(); }
pid_t getpid(void) { return (pid_t)(2 + next() % 30000); }
pid_t getppid(void) { return (pid_t)(2 + next() % 30000); }
uid_t getuid(void) { return (uid_t)(next() % 60000); }
ssize_t getrandom(void* p, size_t k, unsigned f) { (void)f; for (size_t i = 0; i < k; ++i) ((char*)p)[i] = (char)(next() >> 11); return (ssize_t)k; }
int getentropy(void* p, size_t k) { getrandom(p, k, 0); return 0; }
int gethostname(char* p, size_t k) { strncpy(p, "elsewhere", k); return 0; }

static char* invented(const char* name, void* from, const char* fn) {
  static char* (*real)(const char*);
  Dl_info i;
  if (strncmp(name, "VERIF_", 6) && dladdr(from, &i) && i.dli_fname && strstr(i.dli_fname, "host")) return (char*)(next() & 1 ? "1" : "yes");
  real = (char* (*)(const char*))dlsym(RTLD_NEXT, fn);
  return real(name);
}
char* getenv(const char* name) { return invented(name, __builtin_return_address(0), "getenv"); }
char* secure_getenv(const char* name) { return invented(name, __builtin_return_address(0), "secure_getenv"); }
