// A module with entry points of every behaviour that the command line tools may meet.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#define GAS(name, expr) extern "C" uint64_t* name ## _gas(char* s) { (void)s; uint64_t* g = (uint64_t*)malloc(sizeof *g); *g = (expr); return g; }
#define RUN(name, expr) extern "C" char* name ## _run(char* s) { (void)s; return (expr); }

RUN(echo, strdup(s))        GAS(echo, strlen(s))         // the parameters, verbatim
RUN(null, 0)                extern "C" uint64_t* null_gas(char*) { return 0; }
RUN(norun, 0)               GAS(norun, 7)
RUN(nogas, strdup("[]"))    extern "C" uint64_t* nogas_gas(char*) { return 0; }
RUN(onlyrun, strdup("[1]"))
GAS(onlygas, 5)
RUN(empty, strdup(""))      GAS(empty, 0)
RUN(max, strdup("\n"))      GAS(max, ~(uint64_t)0)
RUN(half, strdup("%s%n\\"))  GAS(half, (uint64_t)1 << 63)
RUN(mid, strdup(" [ ] "))   GAS(mid, (uint64_t)1 << 32)
RUN(, strdup("no name"))    GAS(, 11)                    // called "_run", "_gas"
RUN(echo_run, strdup("longer name")) GAS(echo_run, 12)
extern "C" char* big_run(char*) {
  size_t n = 3000000;
  char* r = (char*)malloc(n + 1);
  for (size_t i = 0; i < n; ++i) r[i] = (char)('!' + i * 7 % 90);
  r[n] = 0;
  return r;
}
GAS(big, 1234567890123456789ull)
// The number of calls so far: each entry is called once by a tool.
static int calls;
extern "C" char* count_run(char*) { char* r = strdup("0"); r[0] += ++calls; return r; }
GAS(count, (uint64_t)++calls)
