// PBT rule: Hilbert spaces of random shape (up to 8 elementary spaces of any algebra including user-defined, dimensions 1..9 or huge) enumerated completely, by a prefix, nested, after an aborted enumeration and after copy/move; non-trivial = at least two elementary spaces of non-power-of-two dimension with carries between them
#include "user_space.hpp"
using namespace bridge;

namespace {

template <typename I> std::vector<Site> some_sites(pbt::Gen& g, Pool<I> const& pool, std::uint64_t max_dim, bool huge) {
  std::vector<Site> v;
  int n = g.len(0, 8), bits = 0;
  std::uint64_t dim = 1;
  for(int i = 0; i < n; ++i) {
    Site s = gen_any_site(g, int(pool.v.size()), 9);
    if(s.m.alg == model::S) s = site({model::S, 2 + s.m.mult % 8, s.m.idx}, 0);
    if(huge && i == n - 1 && s.m.alg != model::F && s.m.alg != model::S) s.dim = g.boundary(1, (std::uint64_t(1) << 62) + 1);
    bool dup = false;
    for(auto const& x : v)
      dup |= x.m == s.m;
    if(dup || bits + s.bits() > 63) continue;
    if(!huge && dim * s.dim > max_dim) continue;
    bits += s.bits();
    dim *= s.dim;
    v.push_back(s);
  }
  return v;
}
template <typename I> typename ST<I>::hs make(Pool<I> const& pool, std::vector<Site> const& v) {
  typename ST<I>::hs r;
  for(auto const& s : v)
    r.add(*make_any_space<I>(pool, s));
  return r;
}
bool interesting(Layout const& L, std::uint64_t visited) {
  int odd = 0;
  std::uint64_t d = 1;
  for(auto const& s : L.sites) {
    d *= s.dim;
    odd += (s.dim & (s.dim - 1)) != 0;
    if(d > visited) break;
  }
  return odd >= 2;
}

template <typename I> void whole(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, 5);
  auto v = some_sites<I>(g, pool, 600, false);
  Layout L(v);
  ctx << str(L.sites);
  auto hs = make<I>(pool, v);
  switch(g.below(4)) {
  case 0: {
    auto c = hs;
    hs = typename ST<I>::hs();
    hs = c;
    ctx << " copied";
    break;
  }
  case 1: {
    auto c = std::move(hs);
    hs = std::move(c);
    ctx << " moved";
    break;
  }
  case 2: {
    std::vector<std::unique_ptr<typename ST<I>::es>> own;
    std::vector<typename ST<I>::es*> ptr;
    for(auto const& s : v) {
      own.push_back(make_any_space<I>(pool, s));
      ptr.push_back(own.back().get());
    }
    hs = typename ST<I>::hs(ptr);
    ctx << " from vector";
    break;
  }
  default:;
  }
  expect(hs, L, ~std::uint64_t(0), "enumeration");
  // Aborted, then again
  expect(hs, L, 1 + g.below(L.dim()), "aborted enumeration");
  // With a function object that has a state
  struct Count {
    std::uint64_t n = 0, last = 0;
    void operator()(std::uint64_t st) {
      last = st;
      ++n;
    }
  } count;
  foreach(hs, count);
  MUST(count.n == L.dim() && count.last == L.nth(L.dim() - 1), "function object called ", count.n, " times");
  // Basis states of single spaces
  std::uint64_t all = 0;
  std::vector<std::uint64_t> digits;
  for(std::size_t i = 0; i < L.sites.size(); ++i) {
    std::uint64_t n = g.below(L.sites[i].dim);
    digits.push_back(n);
    auto es = make_any_space<I>(pool, L.sites[i]);
    auto st = hs.basis_state_index(*es, n);
    std::vector<std::uint64_t> d(L.sites.size(), 0);
    d[i] = n;
    MUST(st == L.encode(d), "state ", n, " of ", L.sites[i].str(), " is ", st);
    all += st;
  }
  MUST(all == L.encode(digits), "product state");
  ctx.nontrivial(interesting(L, L.dim()));
}

template <typename I> void nested(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, 5);
  auto v = some_sites<I>(g, pool, 40, false);
  Layout L(v);
  ctx << str(L.sites) << " nested";
  auto hs = make<I>(pool, v);
  std::uint64_t i = 0;
  int depth = int(g.range(1, 2));
  bool abort = g.chance(1, 3);
  foreach(hs, [&](std::uint64_t st) {
    MUST(i < L.dim() && st == L.nth(i), "outer state ", i, " is ", st);
    ++i;
    if(L.dim() > 8 && i % 5 != 1) return;
    if(depth == 1)
      expect(hs, L, abort ? 1 + i / 2 : ~std::uint64_t(0), "inner enumeration");
    else {
      std::uint64_t j = 0;
      foreach(hs, [&](std::uint64_t st2) {
        MUST(j < L.dim() && st2 == L.nth(j), "middle state ", j, " is ", st2);
        if(j++ % 3 == 0) expect(hs, L, ~std::uint64_t(0), "inner enumeration");
      });
      MUST(j == L.dim(), "middle: ", j, " states");
    }
  });
  MUST(i == L.dim(), "outer: ", i, " of ", L.dim(), " states");
  ctx.nontrivial(interesting(L, L.dim()));
}

template <typename I> void huge(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, 6);
  auto v = some_sites<I>(g, pool, 0, true);
  Layout L(v);
  ctx << str(L.sites) << " prefix";
  auto hs = make<I>(pool, v);
  std::uint64_t limit = g.urange(1, 400);
  expect(hs, L, limit, "prefix");
  ctx.nontrivial(interesting(L, limit));
  ctx.label_if(L.dim() >> 31, "2^31 states or more");
}

#ifndef PBT_SANITIZED
// Tens of millions of states, until the indices exceed 2^32
template <typename I> void far(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, 40);
  std::vector<Site> v;
  int bits = 0;
  for(int i = 0; bits < 33; ++i) {
    if(i >= int(pool.v.size())) throw pbt::Discard();
    std::uint64_t d = g.pick(std::vector<std::uint64_t>{3, 5, 9});
    Site s = d == 3 && g.flip() ? site({model::S, 3, i}, 0) : site({model::B, 0, i}, d);
    bits += s.bits();
    v.push_back(s);
  }
  Layout L(v);
  ctx << str(L.sites);
  auto hs = make<I>(pool, v);
  MUST(hs.dim() == L.dim(), "dim() is ", hs.dim());
  std::vector<std::uint64_t> dims, step, digit(L.sites.size(), 0);
  int shift = 0;
  for(auto const& s : L.sites) {
    dims.push_back(s.dim);
    step.push_back(std::uint64_t(1) << shift);
    shift += s.bits();
  }
  std::uint64_t want = 0, n = 0;
  foreach(hs, [&](std::uint64_t st) {
    if(st != want) MUST(false, "state ", n, " is ", st, " instead of ", want);
    ++n;
    for(std::size_t d = 0; d < dims.size(); ++d) {
      want += step[d];
      if(++digit[d] < dims[d]) break;
      want -= step[d] * dims[d];
      digit[d] = 0;
    }
  });
  MUST(n == L.dim(), n, " of ", L.dim(), " states");
  ctx.nontrivial(L.dim() > 1000000);
  ctx.label("indices above 2^32");
}
#endif

} // namespace

#ifndef PBT_SANITIZED
PROP(far_int, 2, 40) { far<IdxInt>(g, ctx); }
#endif
PROP(whole_int, 200000, 4000000) { whole<IdxInt>(g, ctx); }
PROP(whole_dyn, 100000, 2000000) { whole<IdxDyn>(g, ctx); }
PROP(nested_int, 100000, 2000000) { nested<IdxInt>(g, ctx); }
PROP(huge_int, 200000, 4000000) { huge<IdxInt>(g, ctx); }

// The flattening of a product of ranges, for arbitrary sizes
PROP(ranges, 200000, 4000000) {
  std::vector<std::uint64_t> sizes;
  std::uint64_t dim = 1;
  int n = g.len(1, 7), bits = 0;
  std::vector<int> shift;
  for(int i = 0; i < n; ++i) {
    std::uint64_t s = g.chance(1, 5) ? g.urange(1, 70) : g.urange(1, 5);
    if(dim * s > 1000) continue;
    dim *= s;
    sizes.push_back(s);
    shift.push_back(bits);
    while((s - 1) >> (bits - shift.back()))
      ++bits;
  }
  if(sizes.empty()) throw pbt::Discard();
  for(auto s : sizes)
    ctx << s << " ";
  lc::detail::sparse_foreach_basis_state alg(sizes);
  auto const alg2 = alg;
  for(auto const* a : {&std::as_const(alg), &alg2}) {
    std::uint64_t i = 0;
    (*a)([&](std::uint64_t st) {
      std::uint64_t k = i++, want = 0;
      for(std::size_t d = 0; d < sizes.size(); ++d) {
        want += (k % sizes[d]) << shift[d];
        k /= sizes[d];
      }
      MUST(st == want, "state ", i - 1, " is ", st, " instead of ", want);
    });
    MUST(i == dim, i, " states instead of ", dim);
  }
  int odd = 0;
  for(auto s : sizes)
    odd += (s & (s - 1)) != 0;
  ctx.nontrivial(odd >= 2);
}
