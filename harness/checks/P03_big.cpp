// Thousands of elements, deep trees
#include "engine.hpp"
#include "libcommute/loperator/disjoint_sets.hpp"
#include <algorithm>
#include <map>
#include <numeric>

namespace {

struct Ref {
  std::vector<std::size_t> p, mx;
  std::size_t sets = 0;
  explicit Ref(std::size_t n) { grow(n); }
  void grow(std::size_t n) {
    for(; n > 0; --n) {
      p.push_back(p.size());
      ++sets;
    }
  }
  std::size_t top(std::size_t x) {
    while(p[x] != x)
      x = p[x] = p[p[x]];
    return x;
  }
  // The smallest element is always on top
  bool join(std::size_t x, std::size_t y) {
    x = top(x);
    y = top(y);
    if(x == y) return false;
    p[std::max(x, y)] = std::min(x, y);
    --sets;
    return true;
  }
};

void verify(libcommute::disjoint_sets& ds, Ref& ref, bool normal) {
  std::size_t n = ref.p.size();
  MUST(ds.size() == n && ds.n_sets() == ref.sets, "size ", ds.size(), ", sets ", ds.n_sets(), " instead of ",
       n, ", ", ref.sets);
  std::vector<std::size_t> rep(n, n);
  for(std::size_t x = 0; x < n; ++x) {
    std::size_t r = ds.find_root(x), t = ref.top(x);
    MUST(r < n && ref.top(r) == t, "representative ", r, " of ", x, " is not in its set");
    if(rep[t] == n) rep[t] = r;
    MUST(rep[t] == r, "two representatives in one set: ", r, " and ", rep[t]);
    if(normal) MUST(r == t, "representative ", r, " is not the smallest element ", t);
  }
  for(std::size_t x = 0; x + 1 < n; ++x)
    MUST(ds.in_same_set(x, x + 1) == (ref.top(x) == ref.top(x + 1)), "in_same_set ", x);
}

} // namespace

PROP(many_elements, 1500, 60000) {
  std::size_t n = std::size_t(g.boundary(40, 6000));
  libcommute::disjoint_sets ds(g.flip() ? n : 0);
  if(ds.size() == 0) {
    if(g.flip())
      ds.make_sets(n);
    else
      for(std::size_t i = 0; i < n; ++i)
        ds.make_set();
  }
  Ref ref(n);
  int phases = int(g.range(1, 4));
  bool normal = true;
  std::size_t effective = 0;
  ctx << n << " elements:";
  for(int k = 0; k < phases; ++k) {
    std::size_t m = std::size_t(g.below(2 * n));
    auto kind = g.below(7);
    std::size_t c = std::size_t(g.below(n));
    std::size_t d = std::size_t(g.urange(1, 70));
    std::uint64_t lcg = g.below(0);
    auto rnd = [&] {
      lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
      return std::size_t((lcg >> 33) % n);
    };
    bool roots = g.chance(1, 3);
    ctx << " [" << kind << (roots ? " roots " : " ") << m << " " << c << " " << d << "]";
    auto un = [&](std::size_t x, std::size_t y) {
      if(roots) {
        x = ds.find_root(x);
        y = ds.find_root(y);
        if(x == y) return;
      }
      bool eff = ref.join(x, y);
      effective += eff;
      if(eff) normal = false;
      std::size_t r = roots ? ds.root_union(x, y) : ds.set_union(x, y);
      MUST(r < n && ref.top(r) == ref.top(x) && ds.find_root(x) == r, "union of ", x, " and ", y, " returned ", r);
    };
    switch(kind) {
    case 0: // random pairs
      for(std::size_t i = 0; i < m; ++i) {
        auto x = rnd();
        un(x, rnd());
      }
      break;
    case 1: // a star
      for(std::size_t i = 0; i < std::min(m, n); ++i)
        un(i, c);
      break;
    case 2: // a chain upwards
      for(std::size_t i = 0; i + d < std::min(m, n); ++i)
        un(i, i + d);
      break;
    case 3: // a chain downwards
      for(std::size_t i = std::min(m, n); i-- > d;)
        un(i, i - d);
      break;
    case 4: // a tree as deep as it gets
    {
      std::vector<std::size_t> el(n);
      std::iota(el.begin(), el.end(), std::size_t(0));
      for(std::size_t i = n; i > 1; --i)
        std::swap(el[i - 1], el[rnd() % i]);
      std::size_t top = std::size_t(1) << g.range(1, 12);
      for(std::size_t s = 1; s < std::min(n, top); s *= 2)
        for(std::size_t i = 0; i + s < n; i += 2 * s) {
          auto x = ds.find_root(el[i]), y = ds.find_root(el[i + s]);
          if(x == y) continue;
          ref.join(x, y);
          ++effective;
          normal = false;
          ds.root_union(x, y);
        }
      break;
    }
    case 5: {
      ds.make_sets(d);
      ref.grow(d);
      n += d;
      break;
    }
    default: // merge two big sets
      for(std::size_t i = 0; i + 2 < std::min(m, n); ++i)
        un(i, i + 2);
      un(0, 1);
    }
    switch(g.below(5)) {
    case 0: ds.compress_sets(); break;
    case 1:
      ds.normalize_sets();
      normal = true;
      break;
    case 2: verify(ds, ref, normal); break;
    default: break;
    }
  }
  verify(ds, ref, normal);
  auto copy = ds;
  switch(g.below(3)) {
  case 0:
    copy.normalize_sets();
    normal = true;
    break;
  case 1: copy.compress_sets(); break;
  default:
    copy.compress_sets();
    copy.normalize_sets();
    normal = true;
  }
  verify(copy, ref, normal);
  ctx.nontrivial(effective >= 10);
}
