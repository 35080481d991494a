// PBT rule: batches of 64-bit words (sparse, dense, runs, powers of two and their neighbours, random) given to the portable, the GCC and the BMI2 implementation; non-trivial = words with more than two set bits among the arguments
#include "engine.hpp"

#define DECL(NS)                                                               \
  namespace NS {                                                               \
  std::uint64_t pow2(unsigned int n);                                          \
  std::uint64_t next_pow2(std::uint64_t i);                                    \
  unsigned int popcount(std::uint64_t i);                                      \
  bool parity(std::uint64_t i);                                                \
  unsigned int ctz(std::uint64_t i);                                           \
  std::uint64_t deposit(std::uint64_t s, std::uint64_t m);                     \
  std::uint64_t extract(std::uint64_t v, std::uint64_t m);                     \
  }
DECL(h04_portable)
DECL(h04_gcc)
DECL(h04_bmi2)

namespace {

using u64 = std::uint64_t;

// Definitions, bit by bit
int bit(u64 x, int i) { return int(x / (u64(1) << i) % 2); }
int n_bits(u64 x) {
  int n = 0;
  for(int i = 0; i < 64; ++i)
    n += bit(x, i);
  return n;
}
u64 dep(u64 src, u64 mask) {
  u64 r = 0;
  int k = 0;
  for(int i = 0; i < 64; ++i)
    if(bit(mask, i)) {
      if(bit(src, k)) r += u64(1) << i;
      ++k;
    }
  return r;
}
u64 ext(u64 v, u64 mask) {
  u64 r = 0;
  int k = 0;
  for(int i = 0; i < 64; ++i)
    if(bit(mask, i)) {
      if(bit(v, i)) r += u64(1) << k;
      ++k;
    }
  return r;
}

struct Impl {
  const char* name;
  decltype(&h04_gcc::pow2) pow2;
  decltype(&h04_gcc::next_pow2) next_pow2;
  decltype(&h04_gcc::popcount) popcount;
  decltype(&h04_gcc::parity) parity;
  decltype(&h04_gcc::ctz) ctz;
  decltype(&h04_gcc::deposit) deposit;
  decltype(&h04_gcc::extract) extract;
};
#define IMPL(NS)                                                               \
  { #NS, NS::pow2, NS::next_pow2, NS::popcount, NS::parity, NS::ctz, NS::deposit, NS::extract }
std::vector<Impl> impls() {
  std::vector<Impl> v = {IMPL(h04_gcc), IMPL(h04_portable)};
  if(__builtin_cpu_supports("bmi2")) v.push_back(IMPL(h04_bmi2));
  return v;
}

u64 word(pbt::Gen& g) {
  switch(g.below(4)) {
  case 0: return g.bits64();
  case 1: return g.boundary(0, ~u64(0));
  case 2: { // a power of two and its neighbours
    u64 p = u64(1) << g.below(64);
    return p + u64(g.range(-1, 1));
  }
  default: return g.below(0);
  }
}

} // namespace

PROP(one_word, 1600000, 32000000) {
  static auto const all = impls();
  u64 x = word(g);
  ctx << x;
  int n = n_bits(x);
  int low = 0;
  while(low < 64 && !bit(x, low))
    ++low;
  unsigned e = unsigned(g.below(64));
  for(auto const& im : all) {
    MUST(im.popcount(x) == unsigned(n), im.name, ": population count ", im.popcount(x));
    MUST(im.parity(x) == (n % 2 == 1), im.name, ": parity ", im.parity(x));
    if(x) MUST(im.ctz(x) == unsigned(low), im.name, ": trailing zeros ", im.ctz(x));
    MUST(n_bits(im.pow2(e)) == 1 && bit(im.pow2(e), int(e)), im.name, ": 2^", e, " = ", im.pow2(e));
    if(x <= u64(1) << 63) {
      u64 p = im.next_pow2(x);
      MUST(n_bits(p) == 1 && p >= x && (p == 1 || p / 2 < x), im.name, ": next power of 2 ", p);
    }
  }
  ctx.nontrivial(n > 2);
}

PROP(deposit_extract, 1600000, 32000000) {
  static auto const all = impls();
  u64 x = word(g), m = word(g);
  ctx << x << " mask " << m;
  u64 d = dep(x, m), e = ext(x, m);
  for(auto const& im : all) {
    MUST(im.deposit(x, m) == d, im.name, ": deposit ", im.deposit(x, m), " instead of ", d);
    MUST(im.extract(x, m) == e, im.name, ": extract ", im.extract(x, m), " instead of ", e);
    MUST(im.deposit(im.extract(x, m), m) == (x & m), im.name, ": round trip");
  }
  ctx.nontrivial(n_bits(x) > 2 && n_bits(m) > 2);
}
