#pragma once
#include "shared.hpp"
using namespace bridge;

namespace {

template <typename I, typename T, typename Drive> void operators(pbt::Gen& g, pbt::Ctx& ctx, Drive const& drive) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 5;
  o.sites.max_bits = 7;
  o.sites.max_dim = 60;
  o.sites.max_boson = 6;
  OpSpace<I> const s(g, o);
  ctx << str(s.L.sites) << " ";
  Sum sum = gen_hamiltonian<T>(g, s.w), sum2 = gen_hamiltonian<T>(g, s.w);
  ctx << str(sum);
  auto const e = to_expr<I, T>(s.pool, sum);
  auto const hs = s.hs;
  auto const op = lc::make_loperator(e, hs);
  auto const op2 = lc::make_loperator(to_expr<I, T>(s.pool, sum2), hs);
  auto const part = lc::make_space_partition(op, hs);
  auto const states = s.L.all();
  std::vector<T> v0(std::size_t(hs.vec_size()), T(0));
  lc::sparse_state_vector<T> sv0(hs.vec_size());
  int nz = 1 + int(g.below(6));
  for(int i = 0; i < nz; ++i) {
    u64 n = g.pick(states);
    T x = Sc<T>::from(gen_scalar<T>(g, true));
    v0[std::size_t(n)] = x;
    sv0[n] = x;
  }
  auto const v = v0;
  auto const sv = sv0;
  lc::basis_mapper const bm(op, hs);
  lc::basis_mapper const all(states);
  std::vector<T> const mv(states.size(), T(2));
  auto const mview = all.make_const_view(mv);
  std::vector<T> const cv(states.size(), T(3));
  auto const cview = lc::make_const_comp_state_view(cv, hs);
  u64 const probe = g.pick(states);
  std::vector<Task> t;
  auto put = [&](char const* name, auto f) { t.push_back({name, f}); };
  put("op(v)", [&](Digest& d, Hook&) { d.add(op(v)); });
  put("op*sv", [&](Digest& d, Hook&) { d.add(op * sv); });
  put("op(sv,dst)", [&](Digest& d, Hook&) {
    auto dst = zeros_like(sv);
    dst[0] = T(7);
    op(sv, dst);
    d.add(dst);
  });
  put("op2(op(v))", [&](Digest& d, Hook&) { d.add(op2(op(v))); });
  put("copy of op", [&](Digest& d, Hook&) {
    auto c = op;
    d.add(c(sv));
  });
  put("make op", [&](Digest& d, Hook&) {
    auto c = lc::make_loperator(e, hs);
    d.add(c(sv));
  });
  put("foreach(hs)", [&](Digest& d, Hook& h) {
    foreach(hs, [&](u64 n) {
      d.add(n);
      h();
    });
  });
  put("hs", [&](Digest& d, Hook& h) {
    hs.foreach_elementary_space([&](auto const& es) {
      h();
      d.add(int(hs.has(es)));
      d.add(hs.index(es));
      d.add(hs.dim(es));
      d.add(hs.bit_range(es).first);
      d.add(hs.bit_range(es).second);
      auto c = es.clone();
      d.add(int(*c == es));
    });
    d.add(hs.size());
    d.add(hs.total_n_bits());
    d.add(hs.vec_size());
    d.add(hs.dim());
    d.add(int(hs.is_sparse()));
    for(int a : {lc::fermion, lc::boson, lc::spin})
      if(hs.has_algebra(a)) d.add(hs.algebra_bit_range(a).second);
  });
  put("copy of hs", [&](Digest& d, Hook& h) {
    auto c = hs;
    d.add(int(c == hs));
    foreach(c, [&](u64 n) {
      d.add(n);
      h();
    });
  });
  put("partition", [&](Digest& d, Hook& h) {
    d.add(part.dim());
    d.add(part.n_subspaces());
    for(u64 n : states)
      d.add(part[n]);
    std::map<u64, u64> m;
    foreach(part, [&](u64 n, u64 k) {
      h();
      m[n] = k;
    });
    for(auto const& p : m) {
      d.add(p.first);
      d.add(p.second);
    }
  });
  put("make partition", [&](Digest& d, Hook&) {
    lc::matrix_elements_map<T> me;
    auto p = lc::make_space_partition(op, hs, me);
    d.add(p.n_subspaces());
    d.add(me.size());
    for(u64 n : states)
      d.add(p[n]);
  });
  put("connections", [&](Digest& d, Hook&) {
    for(auto const& c : part.find_connections(op2)) {
      d.add(c.first);
      d.add(c.second);
    }
  });
  put("copy of partition", [&](Digest& d, Hook&) {
    auto c = part;
    c.merge_subspaces(op2, op2);
    for(u64 n : states)
      d.add(c[n]);
  });
  put("mapper", [&](Digest& d, Hook&) {
    d.add(bm.size());
    auto const& m = bm.map();
    auto inv = bm.inverse_map();
    for(u64 n : states)
      if(m.count(n)) {
        d.add(m.at(n));
        d.add(inv.at(m.at(n)));
      }
  });
  put("make mapper", [&](Digest& d, Hook&) {
    lc::basis_mapper c(std::vector<std::decay_t<decltype(op)>>{op, op2}, hs, 2);
    d.add(c.size());
  });
  put("mapped view", [&](Digest& d, Hook& h) {
    std::map<u64, T> m;
    foreach(mview, [&](u64 n, T const& a) {
      m[n] = a;
      h();
    });
    for(auto const& p : m) {
      d.add(p.first);
      d.add(p.second);
    }
    d.add(get_element(mview, probe));
  });
  put("op(mapped view)", [&](Digest& d, Hook&) {
    std::vector<T> r(states.size());
    auto dst = all.make_view(r);
    op(mview, dst);
    d.add(r);
  });
  put("compressed view", [&](Digest& d, Hook& h) {
    foreach(cview, [&](u64 n, T const& a) {
      d.add(n);
      d.add(a);
      h();
    });
    d.add(get_element(cview, probe));
    d.add(cview.map_index(probe));
  });
  put("copy of compressed view", [&](Digest& d, Hook&) {
    auto c = cview;
    d.add(c.map_index(probe));
    foreach(c, [&](u64 n, T const&) { d.add(n); });
  });
  put("op(compressed view)", [&](Digest& d, Hook&) {
    std::vector<T> r(states.size());
    auto dst = lc::make_comp_state_view(r, hs);
    op(cview, dst);
    d.add(r);
  });
  drive(g, ctx, t);
}

// Coefficients that are functions of a parameter
struct Fn {
  double a = 0, b = 0;
  Fn() = default;
  explicit Fn(double a, double b = 0) : a(a), b(b) {}
  friend Fn operator+(Fn x, Fn y) { return Fn(x.a + y.a, x.b + y.b); }
  friend Fn operator-(Fn x, Fn y) { return Fn(x.a - y.a, x.b - y.b); }
  friend Fn operator*(Fn x, Fn y) { return Fn(x.a * y.a, x.a * y.b + x.b * y.a); }
  Fn operator-() const { return Fn(-a, -b); }
  Fn& operator+=(Fn o) { return *this = *this + o; }
  Fn& operator-=(Fn o) { return *this = *this - o; }
  Fn& operator*=(Fn o) { return *this = *this * o; }
  double operator()(double x) const { return a + b * x; }
};

} // namespace
namespace libcommute {
template <> struct scalar_traits<Fn> {
  static bool is_zero(Fn const& f) { return f.a == 0 && f.b == 0; }
  static Fn make_const(double x) { return Fn(x); }
  static Fn make_const(var_number const& x) { return Fn(double(x)); }
};
} // namespace libcommute
namespace {

template <typename Drive> void parametric(pbt::Gen& g, pbt::Ctx& ctx, Drive const& drive) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 4;
  o.sites.max_bits = 6;
  OpSpace<IdxInt> const s(g, o);
  ctx << str(s.L.sites) << " ";
  Sum sum = gen_hamiltonian<double>(g, s.w);
  ctx << str(sum);
  auto const e = transform(to_expr<IdxInt, double>(s.pool, sum), [](auto const& m, double c) { return Fn(c, double(m.size())); });
  auto const op = lc::make_param_loperator(e, s.hs);
  std::vector<double> v0(std::size_t(s.hs.vec_size()));
  for(u64 n : s.L.all())
    if(g.flip()) v0[std::size_t(n)] = double(g.range(-2, 2));
  auto const v = v0;
  std::vector<Task> t;
  for(double x : {0.5, -2.0, 3.0}) {
    auto put = [&](std::string name, auto f) { t.push_back({name + pbt::cat(x), f}); };
    put("op(v)", [&, x](Digest& d, Hook&) { d.add(op(v, x)); });
    put("op(v,dst)", [&, x](Digest& d, Hook&) {
      std::vector<double> r(v.size(), 5);
      op(v, r, x);
      d.add(r);
    });
    put("store", [&, x](Digest& d, Hook&) {
      std::vector<double> r(v.size(), 5), c(3, 1.0);
      op.act_and_store_coeffs(v, r, c, x);
      d.add(r);
      d.add(c);
    });
    put("at", [&, x](Digest& d, Hook&) { d.add(op.at(x)(v)); });
    put("copy", [&, x](Digest& d, Hook&) {
      auto c = op;
      d.add(c(v, x));
    });
  }
  drive(g, ctx, t);
}

} // namespace
