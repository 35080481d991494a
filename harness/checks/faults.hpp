// Memory allocations that fail on demand, and a count of the blocks in use
#pragma once
#include <new>

namespace faults {
extern long live;     // blocks in use
extern long count;    // allocations since the last reset
extern long fail_at;  // number of the allocation to fail; negative: none
extern bool sticky;   // all allocations from there on fail, too
extern bool fired;

struct Inject {
  Inject(long at, bool forever) {
    count = 0;
    fired = false;
    sticky = forever;
    fail_at = at;
  }
  ~Inject() { fail_at = -1; }
};
} // namespace faults
