// Concurrent threads, nested calls and calls left by exceptions have to give the digests of calls made
// one after another.
#pragma once
#include "shared.hpp"
#include <atomic>
#include <thread>

namespace bridge {

struct Left {};

// 'tasks' work on the same constant objects
constexpr auto interfere = [](pbt::Gen& g, pbt::Ctx& ctx, std::vector<Task> const& tasks) {
  std::vector<std::vector<std::size_t>> plan(2 + g.below(2));
  for(auto& p : plan) {
    int n = 1 + int(g.below(3));
    for(int i = 0; i < n; ++i)
      p.push_back(g.below(tasks.size()));
  }
  // Often the same operation in two threads
  if(g.flip()) plan[0][0] = plan[1][0];
  for(auto const& p : plan) {
    ctx << " |";
    for(auto k : p)
      ctx << " " << tasks[k].name;
  }
  // The threads come first: objects that prepare something on the first call do it there
  std::vector<std::vector<Digest>> got(plan.size());
  for(std::size_t t = 0; t < plan.size(); ++t)
    got[t].resize(plan[t].size());
  {
    std::atomic<int> waiting{int(plan.size())};
    std::vector<std::thread> th;
    for(std::size_t t = 0; t < plan.size(); ++t)
      th.emplace_back([&, t] {
        waiting.fetch_sub(1, std::memory_order_relaxed);
        while(waiting.load(std::memory_order_relaxed) > 0)
          std::this_thread::yield();
        for(std::size_t i = 0; i < plan[t].size(); ++i)
          got[t][i] = tasks[plan[t][i]].run();
      });
    for(auto& x : th)
      x.join();
  }
  std::vector<Digest> want;
  for(auto const& t : tasks)
    want.push_back(t.run());
  for(std::size_t t = 0; t < plan.size(); ++t)
    for(std::size_t i = 0; i < plan[t].size(); ++i) {
      auto k = plan[t][i];
      MUST(got[t][i].same(want[k]), tasks[k].name, " in thread ", t, " gives ", got[t][i].str(), " instead of ", want[k].str());
    }
  ctx.nontrivial(true);
  // Nested calls, and calls left by an exception
  for(int i = 0; i < 4; ++i) {
    auto a = std::size_t(g.below(tasks.size())), b = g.flip() ? a : std::size_t(g.below(tasks.size()));
    bool leave = g.chance(1, 3);
    Digest in;
    bool called = false;
    Hook h;
    h.at = u64(g.len(0, 12));
    h.f = [&] {
      called = true;
      in = tasks[b].run();
      if(leave) throw Left{};
    };
    Digest out;
    try {
      out = tasks[a].run(h);
    } catch(Left const&) {
      MUST(called && leave, "an exception out of nowhere");
      out = tasks[a].run();
    }
    MUST(out.same(want[a]), tasks[a].name, (leave ? " after one left at step " : " with a call nested at step "), h.at, ": ", out.str(), " instead of ", want[a].str());
    if(called) {
      ctx.label(leave ? "left" : "nested");
      MUST(in.same(want[b]), tasks[b].name, " nested in ", tasks[a].name, " gives ", in.str(), " instead of ", want[b].str());
    }
  }
};

} // namespace bridge
