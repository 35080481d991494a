#pragma once
#include "faults.hpp"
#include "shared.hpp"

namespace bridge {

// Failing allocation numbers out of n
inline std::vector<long> gen_faults(pbt::Gen& g, long n, std::size_t limit) {
  std::vector<long> r;
  if(n <= long(limit))
    for(long i = 0; i < n; ++i)
      r.push_back(i);
  else
    while(r.size() < limit)
      r.push_back(long(g.below(u64(n))));
  return r;
}

// Const operations: nothing leaks, nothing changes
constexpr auto inject = [](pbt::Gen& g, pbt::Ctx& ctx, std::vector<Task> const& tasks) {
  int n_tasks = 1 + int(g.below(3));
  for(int i = 0; i < n_tasks; ++i) {
    auto const& t = tasks[std::size_t(g.below(tasks.size()))];
    ctx << " | " << t.name;
    auto const want = t.run();
    long n = 0;
    {
      long live = faults::live;
      {
        faults::count = 0;
        auto again = t.run();
        n = faults::count;
        MUST(again.same(want), t.name, " twice: ", again.str(), " instead of ", want.str());
      }
      MUST(faults::live == live, t.name, " leaks ", faults::live - live, " blocks");
    }
    for(long at : gen_faults(g, n, 12)) {
      bool sticky = g.chance(1, 3);
      long live = faults::live;
      bool thrown = false, same = true;
      try {
        faults::Inject in(at, sticky);
        auto d = t.run();
        same = d.same(want);
      } catch(std::bad_alloc const&) {
        thrown = true;
      }
      MUST(faults::live == live, t.name, " with allocation ", at, " of ", n, " failing leaks ", faults::live - live, " blocks");
      // Streams swallow exceptions
      MUST(thrown || same || t.name == "print", t.name, " with allocation ", at, " of ", n, " failing returns a wrong result");
      if(thrown) ctx.nontrivial(true);
    }
    auto again = t.run();
    MUST(again.same(want), t.name, " after failures: ", again.str(), " instead of ", want.str());
  }
};

} // namespace bridge
