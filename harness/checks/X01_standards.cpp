// PBT rule: random programs (expression algebra with three scalar types and two index types, user-defined algebras, Hilbert spaces, actions of operators on dense, sparse, compressed and mapped states, sectors, partitions, parametric operators) executed by copies of the library compiled as C++11, C++14 and C++17, by g++ and clang++, with and without BMI2, assertions, optimisation and checked containers and iterators of the standard library; non-trivial = the program printed more than 300 characters (100 for parametric operators) and no exception
#include "engine.hpp"
#include <vector>

#define VARIANT(NS)                                                            \
  namespace NS {                                                               \
  std::string run(int what, std::uint64_t const* tape, std::size_t size);          \
  }
VARIANT(x01_gcc11)
VARIANT(x01_gcc14)
VARIANT(x01_gcc17)
#ifndef PBT_SANITIZED
VARIANT(x01_bmi17)
VARIANT(x01_clang11)
VARIANT(x01_clang17)
VARIANT(x01_debug14)
#endif

namespace {

void compare(pbt::Gen& g, pbt::Ctx& ctx, int what) {
  std::vector<std::uint64_t> tape;
  int n = g.len(10, 120);
  for(int i = 0; i < n; ++i)
    tape.push_back(g.below(5040));
  // The sign of a zero is not worth an alarm
  auto run = [&](std::string (*f)(int, std::uint64_t const*, std::size_t)) {
    std::string s = f(what, tape.data(), tape.size()), r;
    for(std::size_t i = 0; i < s.size(); ++i)
      if(!(s[i] == '-' && i + 2 < s.size() && s[i + 1] == '0' && s[i + 2] != '.')) r += s[i];
    return r;
  };
  std::string want = run(x01_gcc17::run);
  ctx << want.substr(0, 300);
  auto same = [&](std::string const& got, const char* name) {
    if(got == want) return;
    std::size_t k = 0;
    while(k < got.size() && k < want.size() && got[k] == want[k])
      ++k;
    std::size_t b = k > 30 ? k - 30 : 0;
    MUST(false, name, " prints \"", got.substr(b, 80), "\" and g++ -std=c++17 prints \"", want.substr(b, 80), "\"");
  };
  same(run(x01_gcc17::run), "g++ -std=c++17, a second time");
  same(run(x01_gcc11::run), "g++ -std=c++11");
  same(run(x01_gcc14::run), "g++ -std=c++14");
#ifndef PBT_SANITIZED
  if(__builtin_cpu_supports("bmi2")) same(run(x01_bmi17::run), "g++ -std=c++17 -mbmi2");
  same(run(x01_clang11::run), "clang++ -std=c++11");
  same(run(x01_clang17::run), "clang++ -std=c++17");
  // Several times slower than the others
  if(tape[0] % 4 == 0) same(run(x01_debug14::run), "g++ -std=c++14 -D_GLIBCXX_DEBUG");
#endif
  bool exc = want.find("exception\n") != std::string::npos;
  ctx.label_if(exc, "ended with an exception");
  ctx.nontrivial(!exc && want.size() > (what == 7 ? 100 : 300));
}

} // namespace

PROP(algebra_real, 50000, 1000000) { compare(g, ctx, 0); }
PROP(algebra_complex, 50000, 1000000) { compare(g, ctx, 1); }
PROP(algebra_int, 50000, 1000000) { compare(g, ctx, 2); }
PROP(action_real, 50000, 1000000) { compare(g, ctx, 3); }
PROP(action_complex, 50000, 1000000) { compare(g, ctx, 4); }
PROP(partition, 50000, 1000000) { compare(g, ctx, 5); }
PROP(sectors, 50000, 1000000) { compare(g, ctx, 6); }
PROP(parametric, 50000, 1000000) { compare(g, ctx, 7); }
PROP(other, 50000, 1000000) { compare(g, ctx, 8); }
