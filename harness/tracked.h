// An element type whose every construction, destruction, assignment and read
// is checked against the set of objects that are alive.
#ifndef VERIF_TRACKED_H
#define VERIF_TRACKED_H

#include "common.h"

struct CopyFailed {};

struct Tracked {
  static std::unordered_set<const void*>& live() { static std::unordered_set<const void*> s; return s; }
  static long& countdown() { static long c = -1; return c; }  // copies until one throws; -1: never
  static uint64_t& made() { static uint64_t n = 0; return n; }
  static uint64_t& gone() { static uint64_t n = 0; return n; }

  long v;
  long* own;  // memory of its own, so that a double or missing destruction also shows as a memory error

  static void may_throw() {
    if (countdown() >= 0 && countdown()-- == 0) throw CopyFailed();
  }
  void born() {
    vf::Quiet q;
    VF_CHECK(live().insert(this).second, "constructed over a living object");
    ++made();
  }
  void check(const char* what) const {
    VF_CHECK(live().count(this), what << " an object that is not alive");
    VF_CHECK(*own == v, what << " a damaged object");
  }
  Tracked() : v(0), own(0) { may_throw(); own = new long(0); born(); }
  Tracked(long x) : v(x), own(0) { may_throw(); own = new long(x); born(); }
  Tracked(long x, long y) : v(x + y), own(0) { may_throw(); own = new long(x + y); born(); }
  Tracked(const Tracked& o) : v(0), own(0) {
    o.check("copied from");
    may_throw();
    v = o.v;
    own = new long(v);
    born();
  }
  Tracked& operator=(const Tracked& o) {
    check("assigned to");
    o.check("assigned from");
    may_throw();
    v = o.v;
    *own = v;
    return *this;
  }
  ~Tracked() {
    check("destroyed");
    live().erase(this);
    ++gone();
    delete own;
    own = 0;
    v = -0x7777;
  }
  long get() const { check("read"); return v; }
  bool operator==(const Tracked& o) const { return get() == o.get(); }
};

#endif
