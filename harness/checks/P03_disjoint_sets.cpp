// PBT rule: histories of make_set, make_sets, set_union, root_union, find_root, compress, normalise and copy over up to 60 elements; non-trivial = at least three effective unions of which one joins two sets of two or more elements
#include "engine.hpp"
#include "libcommute/loperator/disjoint_sets.hpp"
#include <set>

namespace {

struct Model {
  std::vector<int> label;
  int next = 0;
  void add() { label.push_back(next++); }
  std::size_t n_sets() const { return std::set<int>(label.begin(), label.end()).size(); }
  std::size_t card(std::size_t x) const {
    std::size_t n = 0;
    for(int l : label)
      n += l == label[x];
    return n;
  }
  void join(std::size_t x, std::size_t y) {
    int a = label[x], b = label[y];
    for(int& l : label)
      if(l == b) l = a;
  }
};

struct Both {
  libcommute::disjoint_sets ds;
  Model m;
  bool normal = false; // representatives are known to be smallest elements
};

void check(pbt::Gen& g, Both const& b, bool all) {
  std::size_t n = b.m.label.size();
  MUST(b.ds.size() == n, "size ", b.ds.size());
  MUST(b.ds.n_sets() == b.m.n_sets(), "number of sets ", b.ds.n_sets(), " instead of ", b.m.n_sets());
  if(n == 0) return;
  if(!all) {
    std::size_t x = std::size_t(g.below(n)), y = std::size_t(g.below(n));
    MUST(b.ds.in_same_set(x, y) == (b.m.label[x] == b.m.label[y]), x, " and ", y, " in the same set");
    return;
  }
  std::map<int, std::size_t> rep, smallest;
  for(std::size_t x = 0; x < n; ++x) {
    std::size_t r = b.ds.find_root(x);
    MUST(r < n && b.m.label[r] == b.m.label[x], "representative ", r, " of ", x, " is not in its set");
    auto it = rep.emplace(b.m.label[x], r).first;
    smallest.emplace(b.m.label[x], x);
    MUST(it->second == r, "two representatives in one set: ", r, " and ", it->second);
    MUST(b.ds.find_root(r) == r, "representative of ", r, " not stable");
    if(b.normal) MUST(r == smallest[b.m.label[x]], "representative ", r, " is not the smallest element of its set");
  }
  for(std::size_t x = 0; x < n; ++x)
    MUST(b.ds.find_root(x) == rep[b.m.label[x]], "representative changed by lookup");
}

} // namespace

PROP(history, 320000, 6400000) {
  std::size_t n0 = std::size_t(g.len(0, 24));
  std::vector<Both> v{{libcommute::disjoint_sets(n0), {}, true}};
  for(std::size_t i = 0; i < n0; ++i)
    v[0].m.add();
  ctx << "n=" << n0 << ":";
  int steps = g.len(1, 80), effective = 0;
  bool big = false;
  for(int s = 0; s < steps; ++s) {
    std::size_t w = std::size_t(g.below(v.size()));
    Both& b = v[w];
    std::size_t n = b.m.label.size();
    auto el = [&] { return std::size_t(g.below(n)); };
    switch(g.weighted({30, 10, 4, 2, 10, 4, 4, 2})) {
    case 0:
    case 1: {
      if(n == 0) break;
      bool roots = g.chance(1, 3);
      std::size_t x = el(), y = el();
      if(roots) {
        x = b.ds.find_root(x);
        y = b.ds.find_root(y);
        if(x == y) break;
      }
      bool joined = b.m.label[x] != b.m.label[y];
      if(joined) {
        ++effective;
        big |= b.m.card(x) >= 2 && b.m.card(y) >= 2;
        b.normal = false;
      }
      ctx << (roots ? " root_union " : " union ") << x << "," << y;
      std::size_t r = roots ? b.ds.root_union(x, y) : b.ds.set_union(x, y);
      b.m.join(x, y);
      MUST(r < n && b.m.label[r] == b.m.label[x] && b.ds.find_root(x) == r && b.ds.find_root(y) == r,
           "union returned ", r);
      break;
    }
    case 2: {
      ctx << " make_set";
      if(n >= 60) break;
      std::size_t r = b.ds.make_set();
      b.m.add();
      MUST(r == n && b.ds.find_root(r) == r, "make_set returned ", r);
      break;
    }
    case 3: {
      std::size_t k = std::size_t(g.below(5));
      if(n + k > 60) break;
      ctx << " make_sets " << k;
      b.ds.make_sets(k);
      for(std::size_t i = 0; i < k; ++i)
        b.m.add();
      break;
    }
    case 4: check(g, b, false); break;
    case 5: {
      ctx << " compress";
      std::vector<std::size_t> before;
      bool look = g.flip();
      if(look)
        for(std::size_t x = 0; x < n; ++x)
          before.push_back(b.ds.find_root(x));
      b.ds.compress_sets();
      for(std::size_t x = 0; x < before.size(); ++x)
        MUST(b.ds.find_root(x) == before[x], "compression changed a representative");
      break;
    }
    case 6:
      ctx << " normalize";
      b.ds.normalize_sets();
      b.normal = true;
      if(g.flip()) check(g, b, true);
      break;
    default:
      if(v.size() < 3) {
        ctx << " copy";
        v.push_back(Both(b));
      }
    }
  }
  for(auto const& b : v) {
    check(g, b, false);
    check(g, b, true);
  }
  ctx.nontrivial(effective >= 3 && big);
}

// Unions that build deep trees, then normalisation
PROP(deep_trees, 320000, 6400000) {
  int levels = 1 + g.len(1, 5);
  std::size_t n = std::size_t(1) << levels;
  std::vector<std::size_t> el;
  for(std::size_t i = 0; i < n; ++i)
    el.push_back(i);
  el = g.shuffled(el);
  Both b{libcommute::disjoint_sets(n), {}, true};
  for(std::size_t i = 0; i < n; ++i)
    b.m.add();
  ctx << n << " elements:";
  int skip = int(g.below(3));
  for(std::size_t step = 1; step < n; step *= 2)
    for(std::size_t i = 0; i + step < n; i += 2 * step) {
      if(skip && g.chance(1, 8)) continue;
      std::size_t x = b.ds.find_root(el[i]), y = b.ds.find_root(el[i + step]);
      if(x == y) continue;
      if(g.flip()) std::swap(x, y);
      ctx << " " << x << "," << y;
      b.ds.root_union(x, y);
      b.m.join(x, y);
      b.normal = false;
    }
  int end = int(g.below(3));
  if(end == 0) {
    b.ds.compress_sets();
    ctx << " compress";
  }
  if(end < 2) {
    b.ds.normalize_sets();
    b.normal = true;
    ctx << " normalize";
  }
  check(g, b, true);
  ctx.nontrivial(levels >= 3);
}
