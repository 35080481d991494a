#pragma once
#include "shared.hpp"
using namespace bridge;

namespace {

template <typename I, typename T, typename Drive> void expressions(pbt::Gen& g, pbt::Ctx& ctx, Drive const& drive) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 4;
  o.sites.max_bits = 8;
  o.sites.max_boson = 4;
  OpSpace<I> const s(g, o);
  auto ta = gen_tree<T>(g, s.w, 3, 5, 3), tb = gen_tree<T>(g, s.w, 3, 5, 3);
  ctx << str(s.L.sites) << " a=" << str(*ta) << " b=" << str(*tb);
  auto const a = eval_lib<I, T>(s.pool, *ta);
  auto const b = eval_lib<I, T>(s.pool, *tb);
  auto const& pool = s.pool;
  T const x = Sc<T>::from(gen_scalar<T>(g, true));
  std::vector<Task> t;
  auto dump = [&](Digest& d, auto const& e) {
    for(auto const& m : e) {
      for(auto const& y : m.monomial) {
        auto gs = to_gs<I>(pool, y);
        for(int x : {gs.alg, gs.mult, gs.idx, gs.comp})
          d.add(x);
      }
      d.add(as_cplx(m.coeff));
    }
  };
  auto put = [&](char const* name, auto f) { t.push_back({name, f}); };
  put("a+b", [&, dump](Digest& d, Hook&) { dump(d, a + b); });
  put("a-b", [&, dump](Digest& d, Hook&) { dump(d, a - b); });
  put("a*b", [&, dump](Digest& d, Hook&) { dump(d, a * b); });
  put("b*a", [&, dump](Digest& d, Hook&) { dump(d, b * a); });
  put("-a", [&, dump](Digest& d, Hook&) { dump(d, -a); });
  put("x*a", [&, dump](Digest& d, Hook&) { dump(d, x * a); });
  put("a+x", [&, dump](Digest& d, Hook&) { dump(d, a + x); });
  put("conj(a)", [&, dump](Digest& d, Hook&) { dump(d, conj(a)); });
  put("a==b", [&](Digest& d, Hook&) {
    d.add(int(a == b));
    d.add(int(a == a));
    d.add(int(a != b));
  });
  put("copy", [&](Digest& d, Hook&) {
    auto c = a;
    c += b;
    c *= a;
    dump(d, c);
    d.add(c.size());
  });
  put("print", [&](Digest& d, Hook&) { d.print(a); });
  put("iterate", [&](Digest& d, Hook& h) {
    for(auto const& m : a) {
      h();
      for(auto const& y : m.monomial) {
        auto gs = to_gs<I>(pool, y);
        d.add(gs.alg);
        d.add(gs.idx);
        d.add(y.algebra_id());
      }
      d.add(as_cplx(m.coeff));
    }
  });
  put("backwards", [&](Digest& d, Hook& h) {
    for(auto it = a.end(); it != a.begin();) {
      --it;
      h();
      d.add(as_cplx((*it).coeff));
    }
  });
  put("transform", [&](Digest& d, Hook& h) {
    auto r = transform(a, [&](auto const& m, T const& c) {
      h();
      return m.size() % 2 ? c + c : c;
    });
    dump(d, r);
  });
  put("monomials", [&](Digest& d, Hook&) {
    for(auto const& m : a)
      for(auto const& n : b) {
        d.add(int(m.monomial < n.monomial));
        d.add(int(m.monomial == n.monomial));
        auto c = concatenate(m.monomial, n.monomial);
        d.add(c.size());
        d.add(int(c.is_ordered()));
        for(auto const& y : c) {
          typename std::decay_t<decltype(y)>::linear_function_t f;
          y.conj(f);
          d.add(f.terms.size());
          d.add(double(f.const_term));
        }
      }
  });
  put("space", [&](Digest& d, Hook& h) {
    auto hs = lc::make_hilbert_space(a, lc::boson_es_constructor(3));
    d.add(hs.size());
    d.add(hs.dim());
    hs.foreach_elementary_space([&](auto const& es) {
      h();
      d.add(es.dim());
      d.add(hs.index(es));
      d.add(hs.bit_range(es).first);
    });
  });
  put("operator", [&](Digest& d, Hook&) {
    auto op = lc::make_loperator(a, s.hs);
    lc::sparse_state_vector<T> v(s.hs.vec_size());
    v[0] = T(1);
    v[s.L.nth(s.L.dim() - 1)] = T(2);
    d.add(op(v));
  });
  drive(g, ctx, t);
}

} // namespace
