// The life of an operation derived from EniBase: what the library calls, in
// which order and how often, for random scripts of getGas() and start() on
// several operations at once, and through the C interface.
#include "common.h"
#include <eni.h>
#include <malloc.h>

using namespace vf;

static void say(const std::string& s) { trace() += s; trace() += ' '; }

struct Plan {
  bool parses;            // what parse() answers
  eni::Gas gas;
  std::vector<int> runs;  // what the runs answer: -1 fail, otherwise that many values
};
struct Log { unsigned parsed, gassed, ran, destroyed, made; };
static Plan g_plan;
static Log g_log;

class Scripted : public eni::EniBase {
public:
  Plan plan;
  Log own;
  const json::Array* args;
  std::string first;
  explicit Scripted(const std::string& s) : EniBase(s), plan(g_plan), args(0) { memset(&own, 0, sizeof own); ++g_log.made; }
  ~Scripted() { ++g_log.destroyed; }
  std::string shown() const { std::ostringstream os; args->print(os); return os.str(); }
private:
  bool parse(const json::Array& a) override {
    ++own.parsed; ++g_log.parsed;
    VF_CHECK(own.parsed == 1, "parse() called again");
    VF_CHECK(own.gassed == 0 && own.ran == 0, "parse() after gas() or run()");
    args = &a;
    first = shown();
    return plan.parses;
  }
  eni::Gas gas() const override {
    Scripted* me = const_cast<Scripted*>(this);
    ++me->own.gassed; ++g_log.gassed;
    VF_CHECK(own.parsed == 1 && plan.parses, "gas() without successful parse()");
    VF_CHECK(shown() == first, "the arguments changed before gas()");
    return plan.gas;
  }
  bool run(json::Array& ret) override {
    VF_CHECK(own.parsed == 1 && plan.parses, "run() without successful parse()");
    VF_CHECK(ret.empty(), "run() is given " << ret.size() << " results already");
    VF_CHECK(shown() == first, "the arguments changed before run()");
    int n = plan.runs[own.ran % plan.runs.size()];
    ++own.ran; ++g_log.ran;
    if (n < 0) { if (n < -1) ret.push_back(json::Value("partial")); return false; }
    for (int i = 0; i < n; ++i) {
      if (i & 1) ret.push_back(json::Value((int)(own.ran * 100 + i)));
      else ret.push_back(json::Value("v" + std::to_string(i)));
    }
    return true;
  }
};
static std::string result(int n, unsigned ran) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += (i ? "," : "") + (i & 1 ? std::to_string(ran * 100 + i) : "\"v" + std::to_string(i) + "\"");
  return s + "]";
}
ENI_C_INTERFACE(scripted, Scripted)

static std::string arg_text(Rng& r, bool& array, std::string& canon) {
  array = !r.chance(1, 6);
  if (!array) {
    static const char* other[] = {"5", "-1", "\"x\"", "true", "false", "{}", "{\"a\": 1}", " 0 "};
    return other[r.below(8)];
  }
  std::string s = "[";
  canon = "[";
  for (uint64_t n = r.below(8), i = 0; i < n; ++i) {
    std::string e = r.chance(1, 2) ? std::to_string((int)r.next()) : "\"s" + std::string(r.below(30), 'x') + "\"";
    s += (i ? " , " : "") + e;
    canon += (i ? "," : "") + e;
  }
  canon += "]";
  return s + " ]";
}
static Plan make_plan(Rng& r) {
  static const eni::Gas gases[] = {0, 1, 1499, 1500, 1501, (uint64_t)1 << 31, (uint64_t)1 << 32, ~(uint64_t)0, (uint64_t)1 << 63};
  Plan p;
  p.parses = r.chance(3, 4);
  p.gas = r.chance(1, 3) ? r.next() : gases[r.below(9)];
  for (uint64_t n = 1 + r.below(4); n; --n) p.runs.push_back(r.chance(1, 4) ? -1 - (int)r.below(2) : (int)r.below(6));
  return p;
}

static void one(Rng& r, uint64_t c, const Args& a) {
  memset(&g_log, 0, sizeof g_log);
  unsigned made = 0;
  struct Live { Scripted* op; bool array; std::string text, canon; unsigned gas, start, ran; bool touched; };
  std::vector<Live> ops;
  std::vector<std::pair<char*, std::string> > results;   // must stay as they were
  unsigned steps = 20 + (unsigned)r.below(80);
  for (unsigned s = 0; s < steps; ++s) {
    uint64_t what = r.below(10);
    if (ops.empty() || (what == 0 && ops.size() < 5)) {
      Live l;
      g_plan = make_plan(r);
      l.text = arg_text(r, l.array, l.canon);
      l.gas = l.start = l.ran = 0;
      l.touched = false;
      unsigned parsed = g_log.parsed;
      std::string* text = new std::string(l.text);
      l.op = new Scripted(*text);
      delete text;                                        // the operation has its own copy
      VF_CHECK(g_log.parsed == parsed, "the constructor calls parse()");
      ops.push_back(l);
      ++made;
      say("new(" + l.text + (g_plan.parses ? "" : " refused") + ")");
    } else if (what == 1) {
      size_t i = r.below(ops.size());
      unsigned d = g_log.destroyed;
      eni::EniBase* base = ops[i].op;
      delete base;
      VF_CHECK(g_log.destroyed == d + 1, "deleting through EniBase does not destroy the operation");
      ops.erase(ops.begin() + i);
      say("delete");
    } else if (what == 2 || what == 3) {                  // the C interface
      Live l;
      g_plan = make_plan(r);
      l.text = arg_text(r, l.array, l.canon);
      char* buf = strdup(l.text.c_str());
      Log before = g_log;
      bool ok = l.array && g_plan.parses;
      if (what == 2) {
        uint64_t* gas = scripted_gas(buf);
        VF_CHECK(gas, "_gas gives no gas");
        uint64_t want = ok ? g_plan.gas : 1500;
        VF_CHECK(*gas == want, "_gas gives " << *gas << ", expected " << want);
        VF_CHECK(malloc_usable_size(gas) >= 8, "gas of " << malloc_usable_size(gas) << " bytes");
        VF_CHECK(g_log.gassed - before.gassed == (ok ? 1u : 0u) && g_log.ran == before.ran, "_gas called gas() " << g_log.gassed - before.gassed << " and run() " << g_log.ran - before.ran << " times");
        free(gas);
        say("_gas");
      } else {
        char* ret = scripted_run(buf);
        int n = g_plan.runs[0];
        VF_CHECK((ret != 0) == (ok && n >= 0), "_run gives " << (ret ? ret : "null"));
        VF_CHECK(g_log.ran - before.ran == (ok ? 1u : 0u), "_run called run() " << g_log.ran - before.ran << " times");
        if (ret) {
          VF_CHECK(result(n, 1) == ret, "_run gives " << ret << ", expected " << result(n, 1));
          if (r.chance(1, 2)) results.push_back(std::make_pair(ret, std::string(ret))); else free(ret);
        }
        say("_run");
      }
      VF_CHECK(g_log.parsed - before.parsed == (l.array ? 1u : 0u), "parse() called " << g_log.parsed - before.parsed << " times for " << l.text);
      VF_CHECK(g_log.destroyed == before.destroyed + 1 && g_log.made == before.made + 1, "the operation of a call is not destroyed once");
      VF_CHECK(l.text == buf, "the argument text was written to");
      free(buf);
      ++made;
      stats().add("c_calls");
    } else {
      Live& l = ops[r.below(ops.size())];
      bool ok = l.array && l.op->plan.parses;
      Log before = l.op->own;
      if (what < 6) {
        eni::Gas g = l.op->getGas(), want = ok ? l.op->plan.gas : 1500;
        VF_CHECK(g == want, "getGas() gives " << g << ", expected " << want);
        VF_CHECK(l.op->own.ran == before.ran, "getGas() runs the operation");
        VF_CHECK(l.op->own.gassed == before.gassed + (ok ? 1 : 0), "getGas() calls gas() " << l.op->own.gassed - before.gassed << " times");
        say("gas");
      } else {
        int n = ok ? l.op->plan.runs[l.op->own.ran % l.op->plan.runs.size()] : -1;
        char* ret = l.op->start();
        VF_CHECK(l.op->own.ran == before.ran + (ok ? 1 : 0), "start() calls run() " << l.op->own.ran - before.ran << " times");
        VF_CHECK((ret != 0) == (n >= 0), "start() gives " << (ret ? ret : "null"));
        if (ret) {
          std::string want = result(n, l.op->own.ran);
          VF_CHECK(want == ret, "start() gives " << ret << ", expected " << want);
          VF_CHECK(malloc_usable_size(ret) >= want.size() + 1, "a result of " << malloc_usable_size(ret) << " bytes");
          if (r.chance(1, 2)) results.push_back(std::make_pair(ret, want)); else free(ret);
        }
        say("start");
      }
      VF_CHECK(l.op->own.parsed == (l.array ? 1u : 0u), "parse() called " << l.op->own.parsed << " times for " << l.text);
      if (l.array) VF_CHECK(l.op->first == l.canon, "parse() was given " << l.op->first << " for " << l.text);
      stats().add("calls");
    }
    uint64_t h = 5;
    for (size_t i = 0; i < ops.size(); ++i) h = mix(mix(h, hash_str(ops[i].text)), ops[i].op->own.ran * 16 + ops[i].op->own.gassed);
    stats().state(h);
    for (size_t i = 0; i < results.size(); ++i) VF_CHECK(results[i].second == results[i].first, "a result changed after it was returned");
  }
  while (!ops.empty()) { eni::EniBase* base = ops.back().op; delete base; ops.pop_back(); }
  for (size_t i = 0; i < results.size(); ++i) { VF_CHECK(results[i].second == results[i].first, "a result changed"); free(results[i].first); }
  VF_CHECK(g_log.made == made && g_log.destroyed == made, g_log.made << " operations made, " << g_log.destroyed << " destroyed");
  if (c < 3) sample(trace().substr(0, 250));
}

int main(int argc, char** argv) { return run_cases(argc, argv, one); }
