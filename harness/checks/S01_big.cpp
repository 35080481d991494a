// Thousands of stored amplitudes
#include "lib.hpp"
#include "libcommute/loperator/sparse_state_vector.hpp"
using namespace bridge;

namespace {

template <typename T> struct Pair {
  lc::sparse_state_vector<T> v;
  std::map<std::uint64_t, T> m;
};

template <typename T> void compare(Pair<T>& p, std::uint64_t size, const char* what) {
  MUST(p.v.size() == size, "size");
  std::size_t n = 0;
  std::map<std::uint64_t, T> seen;
  foreach(p.v, [&](std::uint64_t i, T const& a) {
    ++n;
    MUST(seen.emplace(i, a).second, what, ": element ", i, " visited twice");
  });
  MUST(p.v.n_nonzeros() == p.m.size(), what, ": ", p.v.n_nonzeros(), " amplitudes instead of ", p.m.size());
  MUST(n == p.m.size() && seen == p.m, what, ": enumeration of ", n, " amplitudes instead of ", p.m.size());
  for(auto const& x : p.m)
    MUST(get_element(p.v, x.first) == x.second, what, ": element ", x.first);
}

template <typename T> void bulk(pbt::Gen& g, pbt::Ctx& ctx) {
  std::uint64_t size = g.boundary(1000, ~std::uint64_t(0));
  std::uint64_t lcg = g.below(0);
  auto rnd = [&](std::uint64_t n) {
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    return (lcg >> 20) % n;
  };
  auto value = [&] {
    long r = long(rnd(25)) - 12;
    if constexpr(std::is_same<T, int>::value)
      return T(r);
    else if constexpr(lc::is_complex<T>::value)
      return T(double(r) / 4, rnd(2) ? 0 : double(long(rnd(9)) - 4) / 2);
    else
      return T(double(r) / 4);
  };
  std::vector<Pair<T>> v;
  v.push_back({lc::sparse_state_vector<T>(size), {}});
  int phases = int(g.range(1, 6));
  std::size_t most = 0;
  ctx << "size " << size;
  auto update = [&](Pair<T>& p, std::uint64_t i, T x) {
    update_add_element(p.v, i, x);
    T& y = p.m[i];
    y += x;
    if(y == T(0)) p.m.erase(i);
  };
  for(int k = 0; k < phases; ++k) {
    auto w = std::size_t(g.below(v.size()));
    auto& p = v[w];
    std::uint64_t n = g.boundary(1, 5000), base = g.boundary(0, size - 1);
    auto kind = k ? g.below(9) : g.below(3);
    ctx << " [" << w << ": " << kind << " " << n << " " << base << "]";
    switch(kind) {
    case 0: // a run
      for(std::uint64_t i = 0; i < n && base + i < size && base + i >= base; ++i)
        update(p, base + i, value());
      break;
    case 1: { // scattered
      std::uint64_t range = g.boundary(1, size);
      for(std::uint64_t i = 0; i < n; ++i)
        update(p, rnd(range), value());
      break;
    }
    case 2: { // a stride
      std::uint64_t stride = std::uint64_t(1) << g.below(50);
      for(std::uint64_t i = 0; i < n && (size - 1) / stride >= i; ++i)
        update(p, i * stride, value());
      break;
    }
    case 3: { // cancel a part of it
      std::uint64_t part = g.urange(1, 4);
      std::vector<std::uint64_t> is;
      for(auto const& x : p.m)
        if(rnd(part) == 0) is.push_back(x.first);
      for(auto i : is)
        update(p, i, T(-get_element(p.v, i)));
      break;
    }
    case 4: { // prune by value
      T x = value();
      auto crit = [&](T const& a) { return std::abs(a) < std::abs(x); };
      p.v.prune(crit);
      for(auto it = p.m.begin(); it != p.m.end();)
        it = crit(it->second) ? p.m.erase(it) : std::next(it);
      break;
    }
    case 5: { // overwrite, then prune
      std::uint64_t part = g.urange(1, 4);
      for(auto& x : p.m)
        if(rnd(part) == 0) p.v[x.first] = x.second = value();
      p.v.prune();
      for(auto it = p.m.begin(); it != p.m.end();)
        it = it->second == T(0) ? p.m.erase(it) : std::next(it);
      break;
    }
    case 6:
      if(v.size() < 3) {
        auto c = p;
        v.push_back(std::move(c));
      } else {
        auto const& src = v[std::size_t(g.below(v.size()))];
        p.v = src.v;
        p.m = src.m;
      }
      break;
    case 7: // the whole sum of another one
    {
      auto src = v[std::size_t(g.below(v.size()))];
      bool minus = g.flip();
      foreach(src.v, [&](std::uint64_t i, T const& a) { update(p, i, minus ? T(-a) : a); });
      break;
    }
    default:
      if(g.chance(1, 3)) {
        set_zeros(p.v);
        p.m.clear();
      }
    }
    most = std::max(most, v[w].m.size());
    if(g.flip()) compare(v[w], size, "after a step");
  }
  for(auto& p : v)
    compare(p, size, "at the end");
  ctx.nontrivial(most > 100);
}

// Long standard vectors
template <typename T> void dense_bulk(pbt::Gen& g, pbt::Ctx& ctx) {
  std::size_t size = std::size_t(g.boundary(12, 5000));
  std::uint64_t lcg = g.below(0);
  auto rnd = [&](std::uint64_t n) {
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    return (lcg >> 20) % n;
  };
  std::vector<T> v(size, T(0)), m(size, T(0));
  std::size_t n = std::size_t(g.below(2 * size));
  ctx << "size " << size << ", " << n << " updates";
  for(std::size_t k = 0; k < n; ++k) {
    auto i = std::size_t(rnd(size));
    T x = rnd(4) ? T(double(rnd(16)) / 2) : T(-m[i]);
    lc::update_add_element(v, i, x);
    m[i] = m[i] + x;
  }
  std::vector<std::uint64_t> seen, want;
  lc::foreach(v, [&](std::uint64_t i, T const& a) {
    MUST(a == m[std::size_t(i)], "enumerated ", a);
    seen.push_back(i);
  });
  for(std::size_t i = 0; i < size; ++i) {
    if(m[i] != T(0)) want.push_back(i);
    MUST(lc::get_element(v, i) == m[i], "element ", i);
  }
  MUST(seen == want, "enumerated elements");
  MUST(lc::zeros_like(v) == std::vector<T>(size, T(0)), "zeros_like");
  lc::set_zeros(v);
  MUST(v == std::vector<T>(size, T(0)), "set_zeros");
  ctx.nontrivial(want.size() > 50);
}

} // namespace

PROP(bulk_double, 1000, 30000) { bulk<double>(g, ctx); }
PROP(bulk_complex, 600, 20000) { bulk<std::complex<double>>(g, ctx); }
PROP(bulk_int, 600, 20000) { bulk<int>(g, ctx); }
PROP(dense_bulk_double, 3000, 60000) { dense_bulk<double>(g, ctx); }
PROP(dense_bulk_complex, 2000, 40000) { dense_bulk<std::complex<double>>(g, ctx); }
