// Shared pieces of the in-process monitors: deterministic random numbers, a
// CPU-time watchdog, a progress file that survives a sanitizer abort, and the
// bookkeeping of what was observed.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {

struct Rng {
  uint64_t s;
  // (the seed is scrambled: the numbers of one seed are not those of the next one, shifted)
  explicit Rng(uint64_t seed) : s(seed + 0x1234567) { s = next() ^ (seed << 32); s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// What one run observed; printed as one line of JSON at the end.
struct Stats {
  std::map<std::string, uint64_t> n;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  void add(const std::string& k, uint64_t c = 1) { n[k] += c; }
  void max(const std::string& k, uint64_t c) { if (n[k] < c) n[k] = c; }
  void state(uint64_t h) { distinct.insert(h); }
};
inline Stats& stats() { static Stats s; return s; }

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }

inline std::string& trace() { static std::string t; return t; }  // what the current case did
inline int& progress_fd() { static int fd = -1; return fd; }
inline uint64_t& cur_case() { static uint64_t c = 0; return c; }

inline void write_progress(const char* state) {
  if (progress_fd() < 0) return;
  char buf[64];
  int n = snprintf(buf, sizeof buf, "%-20s %20llu\n", state, (unsigned long long)cur_case());
  if (pwrite(progress_fd(), buf, n, 0) < 0) {}
}

// The oracle disagrees with the code: report the case and stop.
inline void fail(const std::string& what) {
  fflush(stdout);
  std::string t = trace();
  if (t.size() > 4000) t = "..." + t.substr(t.size() - 4000);
  fprintf(stderr, "\nORACLE case=%llu: %s\nTRACE %s\n", (unsigned long long)cur_case(), what.c_str(), t.c_str());
  fflush(stderr);
  _exit(3);
}

// Memory asked for while this is not 0 is the monitor's own.
inline int& quiet() { static thread_local int q = 0; return q; }
struct Quiet { Quiet() { ++quiet(); } ~Quiet() { --quiet(); } };

#define VF_CHECK(cond, msg)                                             \
  do {                                                                  \
    if (!(cond)) {                                                      \
      ++vf::quiet();                                                    \
      std::ostringstream vf_os;                                         \
      vf_os << msg << " [" #cond " at " << __FILE__ << ":" << __LINE__ << "]"; \
      vf::fail(vf_os.str());                                            \
    }                                                                   \
  } while (0)

inline void on_cpu_limit(int) {
  static const char m[] = "\nWATCHDOG: a case used up its CPU time\n";
  if (write(2, m, sizeof m - 1) < 0) {}
  _exit(4);
}
// Each case must end within this much CPU time (independent of machine load).
inline void arm_watchdog(unsigned seconds) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, 0);
}

inline std::string esc(const std::string& s) {
  std::string o;
  char b[8];
  for (size_t i = 0; i < s.size() && o.size() < 300; ++i) {
    unsigned char c = s[i];
    if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += c;
    else { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
  }
  return o;
}

struct Args {
  uint64_t seed, first, count;
  unsigned watchdog;
  std::string progress, mode;
  long size;
};

typedef void (*case_fn)(Rng&, uint64_t, const Args&);

inline int run_cases(int argc, char** argv, case_fn fn) {
  Args a;
  a.seed = 1; a.first = 0; a.count = 1; a.watchdog = 20; a.size = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--first") a.first = strtoull(v.c_str(), 0, 10);
    else if (k == "--count") a.count = strtoull(v.c_str(), 0, 10);
    else if (k == "--watchdog") a.watchdog = atoi(v.c_str());
    else if (k == "--progress") a.progress = v;
    else if (k == "--mode") a.mode = v;
    else if (k == "--size") a.size = atol(v.c_str());
  }
  if (!a.progress.empty())
    progress_fd() = open(a.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  signal(SIGPROF, on_cpu_limit);
  for (uint64_t c = a.first; c < a.first + a.count; ++c) {
    cur_case() = c;
    write_progress("running");
    trace().clear();
    arm_watchdog(a.watchdog);
    Rng rng(a.seed * 1000003ull + c);
    fn(rng, c, a);
    stats().add("cases");
  }
  arm_watchdog(0);
  write_progress("done");
  printf("STATS {\"distinct\": %zu, \"n\": {", stats().distinct.size());
  bool first = true;
  for (std::map<std::string, uint64_t>::iterator it = stats().n.begin(); it != stats().n.end(); ++it) {
    printf("%s\"%s\": %llu", first ? "" : ", ", it->first.c_str(), (unsigned long long)it->second);
    first = false;
  }
  printf("}, \"samples\": [");
  for (size_t i = 0; i < stats().samples.size() && i < 5; ++i)
    printf("%s\"%s\"", i ? ", " : "", esc(stats().samples[i]).c_str());
  printf("]}\n");
  fflush(stdout);
  return 0;
}

inline void sample(const std::string& s) {
  if (stats().samples.size() < 5) stats().samples.push_back(s);
}

// Strings of one length that share a hash: every choice of twins, under SDBM and under ELF.
inline std::string sdbm_twin(uint64_t bits, unsigned pieces) {
  static const char* const P[][2] = {{"5mi7hvu", "gphu8w6"}, {"5zjh9zk", "3rhgbbe"}, {"dazxs02", "vj2insj"}, {"a3h22ty", "uzsomud"}, {"5ry3xcj", "wvygr2u"}};
  std::string s;
  for (unsigned i = 0; i < pieces; ++i) s += P[i % 5][(bits >> i) & 1];
  return s;
}
inline std::string elf_twin(uint64_t bits, unsigned pieces) {
  std::string s;
  for (unsigned i = 0; i < pieces; ++i) s += (bits >> i) & 1 ? "ba" : "aq";
  return s;
}

}  // namespace vf

#endif
