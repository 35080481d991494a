// Elementary spaces and Hilbert spaces for the checks of linear operators
#pragma once
#include "lib.hpp"

namespace bridge {

inline std::tuple<int> tup(int r) { return {r}; }
inline IdxUser::raw tup(IdxUser::raw const& r) { return r; }
inline std::tuple<std::string, int> tup(std::pair<std::string, int> const& r) {
  return {r.first, r.second};
}
inline std::tuple<IdxDyn::dyn> tup(IdxDyn::raw const& r) {
  return std::tuple<IdxDyn::dyn>(IdxDyn::dyn(r));
}

template <typename Tuple> struct SpaceTypes;
template <typename... Is> struct SpaceTypes<std::tuple<Is...>> {
  using es = lc::elementary_space<Is...>;
  using f = lc::elementary_space_fermion<Is...>;
  using b = lc::elementary_space_boson<Is...>;
  using s = lc::elementary_space_spin<Is...>;
  using hs = lc::hilbert_space<Is...>;
};
template <typename I>
using ST = SpaceTypes<decltype(tup(std::declval<typename I::raw>()))>;

// A mode together with the dimension of its elementary space
struct Site {
  model::Mode m;
  std::uint64_t dim;
  int bits() const {
    int b = 0;
    while(b < 64 && (dim - 1) >> b)
      ++b;
    return b;
  }
  // Documented order of elementary spaces; dimensions of bosons do not matter
  bool operator<(Site const& o) const { return m < o.m; }
  bool operator==(Site const& o) const { return m == o.m && dim == o.dim; }
  std::string str() const {
    return (m.alg > model::S ? "U" + std::to_string(m.alg - 3) + ":" : m.alg == model::F ? "F" : m.alg == model::B ? "B" : "S") + std::to_string(dim) + "_" +
           std::to_string(m.idx);
  }
};
inline std::string str(std::vector<Site> const& v) {
  std::string s;
  for(auto const& x : v)
    s += (s.empty() ? "" : " ") + x.str();
  return "[" + s + "]";
}
inline Site site(model::Mode m, std::uint64_t boson_dim) {
  return {m, m.alg == model::F ? 2 : m.alg == model::B ? boson_dim : std::uint64_t(m.mult)};
}

template <typename I>
std::unique_ptr<typename ST<I>::es> make_space(Pool<I> const& pool, Site const& s) {
  return std::apply(
      [&](auto const&... i) -> std::unique_ptr<typename ST<I>::es> {
        switch(s.m.alg) {
        case model::F: return std::make_unique<typename ST<I>::f>(i...);
        case model::B: return std::make_unique<typename ST<I>::b>(s.dim, i...);
        default: return std::make_unique<typename ST<I>::s>((double(s.dim) - 1) / 2.0, i...);
        }
      },
      tup(pool[s.m.idx]));
}
template <typename I>
typename ST<I>::hs make_hs(Pool<I> const& pool, std::vector<Site> const& sites) {
  typename ST<I>::hs r;
  for(auto const& s : sites)
    r.add(*make_space<I>(pool, s));
  return r;
}

// ------------------------------------------------------------ reference layout

struct Layout {
  std::vector<Site> sites; // sorted
  std::vector<int> shift;
  int bits = 0;
  Layout() = default;
  explicit Layout(std::vector<Site> v) : sites(std::move(v)) {
    std::sort(sites.begin(), sites.end());
    for(auto const& s : sites) {
      shift.push_back(bits);
      bits += s.bits();
    }
  }
  std::uint64_t dim() const {
    std::uint64_t d = 1;
    for(auto const& s : sites)
      d *= s.dim;
    return d;
  }
  std::vector<model::Mode> modes() const {
    std::vector<model::Mode> r;
    for(auto const& s : sites)
      r.push_back(s.m);
    return r;
  }
  std::uint64_t encode(std::vector<std::uint64_t> const& digits) const {
    std::uint64_t r = 0;
    for(std::size_t i = 0; i < sites.size(); ++i)
      if(sites[i].bits()) r |= digits[i] << shift[i];
    return r;
  }
  std::vector<std::uint64_t> decode(std::uint64_t n) const {
    std::vector<std::uint64_t> r;
    for(std::size_t i = 0; i < sites.size(); ++i) {
      int b = sites[i].bits();
      r.push_back(b ? (n >> shift[i]) & ((b < 64 ? (1ULL << b) : 0) - 1) : 0);
    }
    return r;
  }
  // The k-th valid basis state
  std::uint64_t nth(std::uint64_t k) const {
    std::vector<std::uint64_t> d;
    for(auto const& s : sites) {
      d.push_back(k % s.dim);
      k /= s.dim;
    }
    return encode(d);
  }
  std::uint64_t rank(std::uint64_t n) const {
    auto d = decode(n);
    std::uint64_t r = 0, w = 1;
    for(std::size_t i = 0; i < d.size(); ++i) {
      r += d[i] * w;
      w *= sites[i].dim;
    }
    return r;
  }
  bool valid(std::uint64_t n) const {
    if(bits < 64 && n >> bits) return false;
    auto d = decode(n);
    for(std::size_t i = 0; i < d.size(); ++i)
      if(d[i] >= sites[i].dim) return false;
    return true;
  }
  std::vector<std::uint64_t> all() const {
    std::vector<std::uint64_t> r;
    for(std::uint64_t k = 0; k < dim(); ++k)
      r.push_back(nth(k));
    return r;
  }
};

// Enumeration of the basis states of a space, at most 'limit' of them
struct EnumStop {};
template <typename HS> void expect(HS const& hs, Layout const& L, std::uint64_t limit, const char* what) {
  std::uint64_t i = 0, dim = L.dim();
  try {
    foreach(hs, [&](std::uint64_t st) {
      MUST(i < dim, what, ": more than ", dim, " states, next is ", st);
      if(st != L.nth(i)) MUST(false, what, ": state ", i, " is ", st, " instead of ", L.nth(i));
      if(++i >= limit) throw EnumStop();
    });
  } catch(EnumStop const&) {
    MUST(i == limit, "");
    return;
  }
  MUST(i == dim, what, ": only ", i, " of ", dim, " states");
}

// Random distinct sites with at most 'max_bits' bits and (if nonzero) at most max_dim states
struct SiteOpts {
  bool f = true, b = true, s = true;
  int max_sites = 6;
  int max_bits = 63;
  std::uint64_t max_dim = 0;
  std::uint64_t max_boson = 9;
  int max_mult = 7;
  int max_idx = 6;
};
inline std::vector<Site> gen_sites(pbt::Gen& g, SiteOpts const& o, int n_idx) {
  std::vector<Site> v;
  std::vector<int> algs;
  if(o.f) algs.push_back(model::F);
  if(o.b) algs.push_back(model::B);
  if(o.s) algs.push_back(model::S);
  int n = 1 + int(g.below(std::uint64_t(o.max_sites)));
  int bits = 0;
  std::uint64_t dim = 1;
  for(int i = 0; i < n; ++i) {
    Site s;
    s.m.alg = g.pick(algs);
    s.m.idx = int(g.below(std::uint64_t(n_idx)));
    s.m.mult = s.m.alg == model::S ? 2 + int(g.below(std::uint64_t(o.max_mult - 1))) : 0;
    s = site(s.m, s.m.alg == model::B ? g.boundary(1, o.max_boson) : 0);
    bool dup = false;
    for(auto const& x : v)
      dup |= x.m == s.m;
    if(dup || bits + s.bits() > o.max_bits) continue;
    if(o.max_dim && dim * s.dim > o.max_dim) continue;
    bits += s.bits();
    dim *= s.dim;
    v.push_back(s);
  }
  return v;
}

} // namespace bridge
