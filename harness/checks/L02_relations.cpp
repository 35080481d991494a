// PBT rule: pairs of random expressions on superpositions and on all basis states of random Hilbert spaces (products only with states and truncations that leave room); non-trivial = both operators map the state to something nonzero, or a nonzero matrix element off the diagonal
#include "op.hpp"
using namespace bridge;

namespace {

template <typename I, typename T> struct Case {
  using E = typename I::template expr<T>;
  using V = lc::sparse_state_vector<T>;
  OpSpace<I> s;
  int deg_max;
  static OpOpts opts(pbt::Gen& g, int room) {
    OpOpts o;
    o.sites.max_sites = g.chance(1, 4) ? 25 : 5;
    o.n_idx = o.sites.max_sites > 5 ? 20 : 5;
    o.sites.max_mult = 6;
    o.sites.max_boson = u64(room + 6);
    return o;
  }
  Case(pbt::Gen& g, int room) : s(g, opts(g, room)), deg_max(room) {}

  E expr(pbt::Gen& g, pbt::Ctx& ctx, int deg) const {
    auto t = gen_tree<T>(g, s.w, deg, 5, 3);
    ctx << " {" << str(*t) << "}";
    return eval_lib<I, T>(s.pool, *t);
  }
  // Basis state with room for 'room' more bosons in each mode; nothing if there is none
  bool state(pbt::Gen& g, u64& st, int room) const {
    std::vector<u64> d;
    for(auto const& x : s.L.sites) {
      u64 lim = x.dim;
      if(x.m.alg == model::B && s.used(x.m)) {
        if(x.dim <= u64(room)) return false;
        lim = x.dim - u64(room);
      }
      d.push_back(g.below(lim));
    }
    st = s.L.encode(d);
    return true;
  }
  V vec(pbt::Gen& g, pbt::Ctx& ctx, int room) const {
    V v(s.hs.vec_size());
    int n = 1 + int(g.below(3));
    for(int i = 0; i < n; ++i) {
      u64 st;
      if(!state(g, st, room)) throw pbt::Discard();
      T a = Sc<T>::from(gen_scalar<T>(g, true));
      ctx << " " << a << "|" << st << ">";
      v[st] = a;
    }
    return v;
  }
  // Bound of the amplitudes that can add up
  double bound(E const& e) const {
    double b = 0;
    for(auto const& t : e) {
      double x = std::abs(cplx(t.coeff));
      for(auto const& y : t.monomial) {
        auto gs = to_gs<I>(s.pool, y);
        if(gs.alg == model::F) continue;
        for(auto const& site : s.L.sites)
          if(site.m == model::mode_of(gs)) x *= gs.alg == model::B ? std::sqrt(double(site.dim)) : double(site.dim);
      }
      b += x;
    }
    return b;
  }
};

using M = std::map<u64, cplx>;
M axpy(M a, M const& b, cplx f) {
  for(auto const& p : b)
    a[p.first] += f * p.second;
  return a;
}
void same(M const& a, M const& b, double scale, char const* what) {
  for(auto const* m : {&a, &b})
    for(auto const& p : *m) {
      auto ia = a.find(p.first), ib = b.find(p.first);
      cplx x = ia == a.end() ? cplx(0) : ia->second, y = ib == b.end() ? cplx(0) : ib->second;
      MUST(std::abs(x - y) <= 1e-11 * (scale + 1), what, ": amplitude of state ", p.first, " is ", x, " and ", y);
    }
}
double norm(M const& m) {
  double s = 0;
  for(auto const& p : m)
    s += std::abs(p.second);
  return s;
}

template <typename I, typename T> void algebra(pbt::Gen& g, pbt::Ctx& ctx) {
  int da = int(g.range(1, 3)), db = int(g.range(1, 3));
  Case<I, T> c(g, da + db);
  ctx << str(c.s.L.sites);
  auto a = c.expr(g, ctx, da), b = c.expr(g, ctx, db);
  auto v = c.vec(g, ctx, da + db);
  auto vm = sparse_map(v);
  T x = Sc<T>::from(gen_scalar<T>(g)), y = Sc<T>::from(gen_scalar<T>(g));
  auto op = [&](auto const& e) { return lc::make_loperator(e, c.s.hs); };
  double nv = norm(vm), ba = c.bound(a) * nv, bb = c.bound(b) * nv;
  auto A = op(a), B = op(b);
  M av = sparse_map(A(v)), bv = sparse_map(B(v));
  same(sparse_map(op(a + b)(v)), axpy(av, bv, 1), ba + bb, "(a + b) v");
  same(sparse_map(op(a - b)(v)), axpy(av, bv, -1), ba + bb, "(a - b) v");
  auto lin = axpy({}, av, as_cplx(x));
  lin = axpy(lin, bv, as_cplx(y));
  same(sparse_map(op(x * a + b * y)(v)), lin, std::abs(x) * ba + std::abs(y) * bb, "(xa + by) v");
  same(sparse_map(op(-a)(v)), axpy({}, av, -1), ba, "-a v");
  // Products
  M abv = sparse_map(A(B(v))), bav = sparse_map(B(A(v)));
  double bab = 1e3 * c.bound(a) * c.bound(b) * nv;
  same(sparse_map(op(a * b)(v)), abv, bab, "(a b) v = a (b v)");
  same(sparse_map(op(a * b - b * a)(v)), axpy(abv, bav, -1), 2 * bab, "[a, b] v");
  bool nz = false;
  for(auto const& p : av)
    nz |= std::abs(p.second) > 1e-12;
  bool nz2 = false;
  for(auto const& p : bv)
    nz2 |= std::abs(p.second) > 1e-12;
  ctx.nontrivial(nz && nz2);
}

template <typename I, typename T> void linear(pbt::Gen& g, pbt::Ctx& ctx) {
  Case<I, T> c(g, 0);
  ctx << str(c.s.L.sites);
  auto a = c.expr(g, ctx, 4);
  auto A = lc::make_loperator(a, c.s.hs);
  auto u = c.vec(g, ctx, 0), v = c.vec(g, ctx, 0);
  T x = Sc<T>::from(gen_scalar<T>(g)), y = Sc<T>::from(gen_scalar<T>(g));
  typename Case<I, T>::V w(c.s.hs.vec_size());
  foreach(u, [&](u64 n, T const& z) { update_add_element(w, n, x * z); });
  foreach(v, [&](u64 n, T const& z) { update_add_element(w, n, y * z); });
  auto um = sparse_map(u), vm = sparse_map(v), wm = sparse_map(w);
  double s = c.bound(a) * (std::abs(x) * norm(um) + std::abs(y) * norm(vm));
  M au = sparse_map(A(u)), av = sparse_map(A(v));
  auto Aw = A(w);
  M want = axpy(axpy({}, au, as_cplx(x)), av, as_cplx(y));
  same(sparse_map(Aw), want, s, "A(xu + yv)");
  // All ways to apply the operator agree, and inputs stay as they were
  M aw = sparse_map(Aw);
  MUST(sparse_map(A * w) == aw, "A*w differs from A(w)");
  auto dst = v;
  A(w, dst);
  MUST(sparse_map(dst) == aw, "A(w, dst) differs from A(w)");
  A(w, dst);
  MUST(sparse_map(dst) == aw, "second A(w, dst) differs");
  MUST(sparse_map(w) == wm && sparse_map(u) == um && sparse_map(v) == vm, "input changed");
  auto const copy = A;
  MUST(sparse_map(copy(w)) == aw, "copy acts differently");
  auto moved = std::move(A);
  MUST(sparse_map(moved(w)) == aw, "moved operator acts differently");
  lc::loperator<T, lc::fermion, lc::boson, lc::spin> zero;
  MUST(sparse_map(zero(w)).empty(), "default operator is not zero");
  zero = moved;
  MUST(sparse_map(zero(w)) == aw, "assigned operator acts differently");
  // Put together from its monomials
  lc::loperator<T, lc::fermion, lc::boson, lc::spin> built;
  for(auto const& t : a)
    built.add_monomial_action(lc::monomial_action<lc::fermion, lc::boson, lc::spin>(
                                  std::make_pair(t.monomial.begin(), t.monomial.end()), c.s.hs),
                              t.coeff);
  MUST(sparse_map(built(w)) == aw, "operator assembled from monomials acts differently");
  // Operators and states of very different magnitudes
  {
    int k = int(g.range(-30, 30));
    double small = 1;
    for(auto const& t : a)
      small = std::min(small, std::abs(cplx(t.coeff)));
    double f = std::ldexp(1.0, k);
    if(f * small > 1e-12) {
      typename Case<I, T>::V z(c.s.hs.vec_size());
      foreach(u, [&](u64 n, T const& x) { z[n] = x * T(1 / f); });
      auto fA = lc::make_loperator(T(f) * a, c.s.hs);
      same(sparse_map(fA(z)), au, c.bound(a) * norm(um), "(f A)(u / f)");
      ctx.label_if(k < -20, "tiny operator");
    }
  }
  // Products of small matrix elements and small amplitudes count
  if(c.s.hs.vec_size() <= 256) {
    double small = 1;
    for(auto const& t : a)
      small = std::min(small, std::abs(cplx(t.coeff)));
    double f = std::ldexp(1.0, -int(g.below(38))), h = std::ldexp(1.0, -int(g.below(38)));
    std::vector<T> z(std::size_t(c.s.hs.vec_size()), T(0)), out(z);
    double least = 1;
    for(auto const& p : um) {
      least = std::min(least, std::abs(p.second));
      z[p.first] = get_element(u, p.first) * T(h);
    }
    if(f * small > 1e-12 && h * least > 1e-12) {
      auto fA = lc::make_loperator(T(f) * a, c.s.hs);
      fA(z, out);
      M got;
      for(std::size_t i = 0; i < out.size(); ++i)
        if(out[i] != T(0)) got[i] = as_cplx(out[i]) / (f * h);
      same(got, au, c.bound(a) * norm(um), "(f A)(h u) / fh");
      ctx.label_if(f * h < 1e-15, "tiny products");
    }
  }
  ctx.nontrivial(norm(aw) > 1e-12 && wm.size() > 1);
}

template <typename I, typename T> void adjoint(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_bits = 6;
  o.sites.max_dim = 32;
  OpSpace<I> s(g, o);
  ctx << str(s.L.sites);
  auto t = gen_tree<T>(g, s.w, 5, 6, 4);
  ctx << " " << str(*t);
  auto a = eval_lib<I, T>(s.pool, *t);
  auto A = lc::make_loperator(a, s.hs), C = lc::make_loperator(conj(a), s.hs);
  std::map<std::pair<u64, u64>, cplx> ma, mc;
  double scale = 0;
  auto fill = [&](auto const& op, auto& m) {
    for(u64 j : s.L.all()) {
      std::vector<T> v(std::size_t(s.hs.vec_size()), T(0));
      v[std::size_t(j)] = T(1);
      auto r = op(v);
      for(std::size_t i = 0; i < r.size(); ++i) {
        m[{i, j}] = as_cplx(r[i]);
        scale = std::max(scale, std::abs(cplx(r[i])));
      }
    }
  };
  fill(A, ma);
  fill(C, mc);
  bool off = false;
  for(u64 i : s.L.all())
    for(u64 j : s.L.all()) {
      MUST(std::abs(ma[{i, j}] - std::conj(mc[{j, i}])) <= 1e-10 * (scale + 1), "elements ", i, ",", j, ": ",
           ma[{i, j}], " and ", mc[{j, i}]);
      off |= i != j && std::abs(ma[{i, j}]) > 1e-12;
    }
  // a + a^+ is a symmetric matrix
  auto H = lc::make_loperator(a + lc::hc, s.hs);
  std::map<std::pair<u64, u64>, cplx> mh;
  fill(H, mh);
  for(u64 i : s.L.all())
    for(u64 j : s.L.all()) {
      MUST(std::abs(mh[{i, j}] - std::conj(mh[{j, i}])) <= 1e-10 * (scale + 1), "a + hc is not Hermitian");
      MUST(std::abs(mh[{i, j}] - ma[{i, j}] - mc[{i, j}]) <= 1e-10 * (scale + 1), "a + hc is not a + conj(a)");
    }
  ctx.nontrivial(off);
}

} // namespace

PROP(algebra_double, 80000, 1600000) { algebra<IdxInt, double>(g, ctx); }
PROP(algebra_complex, 80000, 1600000) { algebra<IdxInt, cplx>(g, ctx); }
PROP(algebra_dyn, 40000, 800000) { algebra<IdxDyn, double>(g, ctx); }
PROP(linear_double, 80000, 1600000) { linear<IdxInt, double>(g, ctx); }
PROP(linear_complex, 80000, 1600000) { linear<IdxInt, cplx>(g, ctx); }
PROP(adjoint_double, 24000, 480000) { adjoint<IdxInt, double>(g, ctx); }
PROP(adjoint_complex, 24000, 480000) { adjoint<IdxInt, cplx>(g, ctx); }
