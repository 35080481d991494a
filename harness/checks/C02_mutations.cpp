#include "C02_body.hpp"
using namespace bridge;

namespace {

// 'op' changes a copy of 'init'; it may fail at any allocation. 'check' inspects an object (its
// invariants), 'same' compares two of them. Objects that are not 'valid' after a failure can only be
// destroyed, copied and assigned to.
template <typename X, typename Op, typename Check, typename Same>
void mutate(pbt::Gen& g, pbt::Ctx& ctx, char const* name, X const& init, Op const& op, Check const& check, Same const& same, bool valid = true, bool strong = false) {
  ctx << " | " << name;
  long n = 0;
  X want(init);
  {
    long live = faults::live;
    {
      X t(init);
      faults::count = 0;
      op(t);
      n = faults::count;
    }
    MUST(faults::live == live, name, " leaks ", faults::live - live, " blocks");
    op(want);
  }
  for(long at : gen_faults(g, n, 12)) {
    bool sticky = g.chance(1, 3), again = g.flip();
    long live = faults::live;
    {
      X t(init);
      bool thrown = false;
      try {
        faults::Inject in(at, sticky);
        op(t);
      } catch(std::bad_alloc const&) {
        thrown = true;
      }
      if(thrown) {
        ctx.nontrivial(true);
        X const d(t);
        if(strong) MUST(same(t, init), name, ": changed by a failure at allocation ", at, " of ", n);
        if(valid) {
          check(t);
          MUST(same(d, t), name, ": copy of an object left by a failure at allocation ", at, " of ", n);
        }
        if constexpr(std::is_copy_assignable<X>::value) {
          t = init;
          MUST(same(t, init), name, ": assignment to an object left by a failure at allocation ", at, " of ", n);
          if(again) {
            op(t);
            MUST(same(t, want), name, " repeated after a failure at allocation ", at, " of ", n);
          }
        }
      } else
        MUST(same(t, want), name, " with allocation ", at, " of ", n, " failing gives a wrong result");
    }
    MUST(faults::live == live, name, " with allocation ", at, " of ", n, " failing leaks ", faults::live - live, " blocks");
  }
}

template <typename I, typename T> void expression(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 4;
  o.sites.max_bits = 8;
  OpSpace<I> const s(g, o);
  auto ta = gen_tree<T>(g, s.w, 3, 5, 3), tb = gen_tree<T>(g, s.w, 3, 5, 3);
  ctx << str(s.L.sites) << " a=" << str(*ta) << " b=" << str(*tb);
  using E = typename I::template expr<T>;
  E const a = eval_lib<I, T>(s.pool, *ta), b = eval_lib<I, T>(s.pool, *tb);
  E const bc = b;
  T const x = Sc<T>::from(gen_scalar<T>(g));
  auto check = [](E const& e) {
    std::size_t n = 0;
    typename E::monomial_t const* last = nullptr;
    for(auto it = e.begin(); it != e.end(); ++it) {
      auto const& m = *it;
      ++n;
      MUST(!lc::scalar_traits<T>::is_zero(m.coeff), "a zero coefficient");
      MUST(m.monomial.is_ordered(), "a monomial out of order");
      (void)last;
    }
    MUST(n == e.size(), "size");
  };
  auto same = [](E const& p, E const& q) { return p == q; };
  auto m = [&](char const* name, auto f, bool strong = false) { mutate(g, ctx, name, a, f, check, same, true, strong); };
  switch(g.below(12)) {
  case 0: m("+= b", [&](E& e) { e += b; }); break;
  case 1: m("-= b", [&](E& e) { e -= b; }); break;
  case 2: m("*= b", [&](E& e) { e *= b; }, true); break;
  case 3: m("*= x", [&](E& e) { e *= x; }); break;
  case 4: m("+= x", [&](E& e) { e += x; }); break;
  case 5: m("-= x", [&](E& e) { e -= x; }); break;
  case 6: m("= b", [&](E& e) { e = b; }); break;
  case 7: m("+= self", [&](E& e) { e += e; }); break;
  case 8: m("*= self", [&](E& e) { e *= e; }, true); break;
  case 9: m("= move", [&](E& e) {
      E c(b);
      e = std::move(c);
    });
    break;
  case 10: m("= conj", [&](E& e) { e = conj(e) + b; }); break;
  default: m("clear", [&](E& e) {
      e.clear();
      e += b;
    });
  }
  MUST(b == bc, "the other operand has changed");
}

template <typename I> void monomials(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_bits = 8;
  OpSpace<I> const s(g, o);
  auto gen = [&] {
    return eval_lib<I, double>(s.pool, *gen_tree<double>(g, s.w, 4, 4, 3));
  };
  auto ea = gen(), eb = gen();
  ctx << str(s.L.sites) << " " << ea << " ; " << eb;
  using Mo = typename decltype(ea)::monomial_t;
  Mo a, b;
  if(ea.size()) a = ea.begin()->monomial;
  if(eb.size()) b = eb.begin()->monomial;
  auto check = [](Mo const& m) {
    std::size_t n = 0;
    for(auto const& y : m) {
      (void)y.algebra_id();
      ++n;
    }
    MUST(n == m.size(), "size");
  };
  auto same = [](Mo const& p, Mo const& q) { return p == q; };
  auto m = [&](char const* name, auto f) { mutate(g, ctx, name, a, f, check, same); };
  switch(g.below(5)) {
  case 0: m("= m", [&](Mo& x) { x = b; }); break;
  case 1: m("append m", [&](Mo& x) { x.append(b); }); break;
  case 2: m("append range", [&](Mo& x) { x.append(std::make_pair(b.begin(), b.end())); }); break;
  case 3:
    m("append generator", [&](Mo& x) {
      if(b.size()) x.append(*b.begin());
    });
    break;
  default: m("= move", [&](Mo& x) {
      Mo c(b);
      x = std::move(c);
    });
  }
}

template <typename I> void spaces(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_bits = 8;
  o.sites.max_dim = 200;
  OpSpace<I> const s(g, o), other(g, o);
  ctx << str(s.L.sites) << " " << str(other.L.sites);
  using H = typename ST<I>::hs;
  auto check = [](H const& hs) {
    u64 n = 0, dim = 1;
    foreach(hs, [&](u64 k) {
      ++n;
      MUST(k < hs.vec_size(), "state ", k);
    });
    int bits = 0;
    hs.foreach_elementary_space([&](auto const& es) {
      dim *= es.dim();
      MUST(hs.has(es) && hs.bit_range(es).first == bits, "bit range");
      bits += es.n_bits();
    });
    MUST(hs.total_n_bits() == bits && (hs.size() == 0 || hs.dim() == dim), "dimension ", hs.dim(), " instead of ", dim);
    MUST(n == hs.dim() || hs.size() == 0, "visited ", n, " states of ", hs.dim());
  };
  auto same = [](H const& p, H const& q) { return p == q && p.dim() == q.dim(); };
  auto m = [&](char const* name, auto f, bool strong = false) { mutate(g, ctx, name, s.hs, f, check, same, true, strong); };
  switch(g.below(5)) {
  case 0: m("= hs", [&](H& h) { h = other.hs; }, true); break;
  case 1: {
    // The first of the spaces that are not yet there
    m("add one", [&](H& h) {
      bool done = false;
      other.hs.foreach_elementary_space([&](auto const& es) {
        if(!done && !h.has(es)) {
          done = true;
          h.add(es);
        }
      });
    }, true);
    break;
  }
  case 2:
    m("add", [&](H& h) {
      other.hs.foreach_elementary_space([&](auto const& es) {
        if(!h.has(es)) h.add(es);
      });
    });
    break;
  case 3: m("= move", [&](H& h) {
      H c(other.hs);
      h = std::move(c);
    });
    break;
  default: {
    auto e = to_expr<I, double>(s.pool, gen_hamiltonian<double>(g, s.w));
    m("= make", [&](H& h) { h = lc::make_hilbert_space(e, lc::boson_es_constructor(3)); });
  }
  }
}

template <typename I, typename T> void operators(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 5;
  o.sites.max_bits = 6;
  OpSpace<I> const s(g, o);
  ctx << str(s.L.sites) << " ";
  Sum sum = gen_hamiltonian<T>(g, s.w), sum2 = gen_hamiltonian<T>(g, s.w);
  ctx << str(sum) << " ; " << str(sum2);
  auto const op = lc::make_loperator(to_expr<I, T>(s.pool, sum), s.hs);
  auto const op2 = lc::make_loperator(to_expr<I, T>(s.pool, sum2), s.hs);
  auto const states = s.L.all();
  using V = lc::sparse_state_vector<T>;
  auto vec = [&] {
    V v(s.hs.vec_size());
    int nz = int(g.below(6));
    for(int i = 0; i < nz; ++i)
      v[g.pick(states)] = Sc<T>::from(gen_scalar<T>(g, true));
    return v;
  };
  V const v = vec(), w = vec();
  auto vdigest = [](V const& x) {
    Digest d;
    d.add(x);
    return d;
  };
  auto vcheck = [&](V const& x) {
    MUST(x.size() == s.hs.vec_size(), "size of a vector");
    u64 n = 0;
    foreach(x, [&](u64 k, T const&) {
      ++n;
      MUST(k < x.size());
    });
    MUST(n == x.n_nonzeros(), "number of elements");
  };
  auto vsame = [&](V const& p, V const& q) { return vdigest(p).same(vdigest(q)); };
  auto mv = [&](char const* name, auto f) { mutate(g, ctx, name, w, f, vcheck, vsame); };
  using P = lc::space_partition<typename ST<I>::hs>;
  auto pdigest = [&](P const& p) {
    Digest d;
    d.add(p.n_subspaces());
    for(u64 n : states)
      d.add(p[n]);
    return d;
  };
  using O = std::decay_t<decltype(op)>;
  switch(g.below(8)) {
  case 0: mv("op(v,w)", [&](V& x) { op(v, x); }); break;
  case 1: mv("w = op(v)", [&](V& x) { x = op(v); }); break;
  case 2: mv("w = v", [&](V& x) { x = v; }); break;
  case 3:
    mv("update", [&](V& x) {
      foreach(v, [&](u64 k, T const& a) { update_add_element(x, k, a); });
    });
    break;
  case 4:
    mv("elements", [&](V& x) {
      foreach(v, [&](u64 k, T const& a) { x[k] = a; });
      x.prune();
    });
    break;
  case 5: {
    mutate(
        g, ctx, "op = op2", op, [&](O& x) { x = op2; },
        [&](O const& x) { vcheck(x(v)); }, [&](O const& p, O const& q) { return vsame(p(v), q(v)); }, false);
    break;
  }
  case 6: {
    P const p = lc::make_space_partition(op, s.hs);
    auto const dag = lc::make_loperator(conj(to_expr<I, T>(s.pool, sum2)), s.hs);
    mutate(
        g, ctx, "merge", p, [&](P& x) { x.merge_subspaces(dag, op2); }, [](P const&) {},
        [&](P const& x, P const& y) { return pdigest(x).same(pdigest(y)); }, false);
    break;
  }
  default: {
    lc::basis_mapper const bm(states);
    auto bsame = [](lc::basis_mapper const& x, lc::basis_mapper const& y) { return x.map() == y.map(); };
    mutate(
        g, ctx, "mapper", bm, [&](lc::basis_mapper& x) { x = lc::basis_mapper(op, s.hs); },
        [](lc::basis_mapper const& x) { MUST(x.map().size() == x.size()); }, bsame);
  }
  }
  V const again = w;
  MUST(vsame(again, w));
}

} // namespace

PROP(expression_int, 60000, 1200000) { expression<IdxInt, double>(g, ctx); }
PROP(expression_dyn, 24000, 480000) { expression<IdxDyn, double>(g, ctx); }
PROP(monomials_int, 24000, 480000) { monomials<IdxInt>(g, ctx); }
PROP(monomials_dyn, 12000, 240000) { monomials<IdxDyn>(g, ctx); }
PROP(spaces_int, 36000, 720000) { spaces<IdxInt>(g, ctx); }
PROP(spaces_dyn, 12000, 240000) { spaces<IdxDyn>(g, ctx); }
PROP(operators_and_vectors, 36000, 720000) { operators<IdxInt, double>(g, ctx); }
