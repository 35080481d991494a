// Linear operators and their reference matrix elements
#pragma once
#include "hs.hpp"
#include <cmath>

namespace bridge {

using cplx = std::complex<double>;
using u64 = std::uint64_t;

inline u64 to_index(Layout const& L, model::Occ const& o) {
  std::vector<u64> d(o.begin(), o.end());
  return L.encode(d);
}
inline model::Occ to_occ(Layout const& L, u64 n) {
  auto d = L.decode(n);
  model::Occ o;
  for(auto x : d)
    o.push_back(int(x));
  return o;
}
inline bool fits(Layout const& L, model::Occ const& o) {
  for(std::size_t i = 0; i < o.size(); ++i)
    if(o[i] < 0 || u64(o[i]) >= L.sites[i].dim) return false;
  return true;
}
// weight(to) / weight(from)
inline Q weight_ratio(std::vector<model::Mode> const& modes, model::Occ const& to, model::Occ const& from) {
  Q r = 1;
  for(std::size_t i = 0; i < modes.size(); ++i) {
    int lo = std::min(to[i], from[i]), hi = std::max(to[i], from[i]);
    Q f = 1;
    if(modes[i].alg == model::B)
      for(int n = lo + 1; n <= hi; ++n)
        f *= n;
    else if(modes[i].alg == model::S)
      for(int k = lo; k < hi; ++k)
        f *= model::q(k + 1, modes[i].mult - 1 - k);
    if(to[i] >= from[i])
      r *= f;
    else
      r /= f;
  }
  return r;
}
inline double root(Q const& r) { return std::sqrt(r.get_d()); }

// A vector with the tolerance that belongs to each element
struct RefVec {
  std::map<u64, cplx> v;
  std::map<u64, double> scale;
  void add(u64 n, cplx x, double s) {
    v[n] += x;
    scale[n] += s;
  }
};
// Amplitudes of a unit basis state's image. 'terms' (any way to write the operator as a
// sum of products) sets the magnitude of what may cancel.
template <typename Apply>
void ref_column(RefVec& out, Layout const& L, u64 in, cplx amp, Apply const& apply,
                std::vector<std::pair<model::Word, CQ>> const& terms) {
  auto modes = L.modes();
  model::Occ o = to_occ(L, in);
  model::State unit{{o, CQ(1)}};
  model::State res = apply(modes, unit);
  for(auto const& p : res) {
    if(!fits(L, p.first)) continue;
    double r = root(weight_ratio(modes, p.first, o));
    out.add(to_index(L, p.first), cplx(p.second.re.get_d(), p.second.im.get_d()) * r * amp, 0);
  }
  for(auto const& t : terms)
    for(auto const& p : model::act(t.first, t.second, modes, unit)) {
      if(!fits(L, p.first)) continue;
      double r = root(weight_ratio(modes, p.first, o));
      out.scale[to_index(L, p.first)] +=
          (std::abs(p.second.re.get_d()) + std::abs(p.second.im.get_d())) * r * std::abs(amp);
    }
}
template <typename T> cplx as_cplx(T const& x) { return cplx(double(x), 0); }
inline cplx as_cplx(cplx const& x) { return x; }

// got: callable index -> amplitude, with the list of indices that may be nonzero
template <typename Map> void compare(Map const& got, RefVec const& want, char const* what) {
  for(auto const& p : want.v) {
    auto it = got.find(p.first);
    cplx x = it == got.end() ? cplx(0) : cplx(it->second);
    auto s = want.scale.find(p.first);
    double tol = 1e-10 * (std::abs(p.second) + (s == want.scale.end() ? 0 : s->second)) + 1e-13;
    MUST(std::abs(x - p.second) <= tol, what, ": amplitude of state ", p.first, " is ", x, " instead of ", p.second);
  }
  for(auto const& p : got) {
    if(want.v.count(p.first)) continue;
    auto s = want.scale.find(p.first);
    double tol = 1e-10 * (s == want.scale.end() ? 0 : s->second) + 1e-13;
    MUST(std::abs(cplx(p.second)) <= tol, what, ": amplitude of state ", p.first, " is ", p.second, " instead of 0");
  }
}

template <typename T> std::map<u64, cplx> sparse_map(lc::sparse_state_vector<T> const& v) {
  std::map<u64, cplx> m;
  foreach(v, [&](u64 n, T const& x) { m[n] = as_cplx(x); });
  return m;
}
template <typename T> std::map<u64, cplx> dense_map(std::vector<T> const& v) {
  std::map<u64, cplx> m;
  for(std::size_t i = 0; i < v.size(); ++i)
    if(v[i] != T(0)) m[i] = as_cplx(v[i]);
  return m;
}

// A Hilbert space together with the modes an operator may use
struct OpOpts {
  SiteOpts sites;
  int n_idx = 12;
  int max_used = 5;
};
template <typename I> struct OpSpace {
  Pool<I> pool;
  Layout L;
  typename ST<I>::hs hs;
  model::World w;
  OpSpace(pbt::Gen& g, OpOpts const& o) : pool(g, o.n_idx) {
    auto v = gen_sites(g, o.sites, int(pool.v.size()));
    if(v.empty()) v.push_back(site({model::F, 0, 0}, 0));
    L = Layout(v);
    hs = make_hs<I>(pool, v);
    w.n_idx = int(pool.v.size());
    auto u = g.shuffled(L.sites);
    std::size_t n = 1 + std::size_t(g.below(u64(o.max_used)));
    for(std::size_t i = 0; i < u.size() && i < n; ++i) {
      GS x;
      x.alg = u[i].m.alg;
      x.mult = u[i].m.alg == model::S ? u[i].m.mult : x.mult;
      x.idx = u[i].m.idx;
      w.protos.push_back(x);
    }
  }
  // A basis state; occupations tend to the ends of their ranges
  u64 state(pbt::Gen& g) const {
    std::vector<u64> d;
    for(auto const& s : L.sites)
      d.push_back(s.m.alg == model::B ? g.boundary(0, s.dim - 1) : g.below(s.dim));
    return L.encode(d);
  }
  bool used(model::Mode const& m) const {
    for(auto const& p : w.protos)
      if(model::mode_of(p) == m) return true;
    return false;
  }
};

} // namespace bridge
