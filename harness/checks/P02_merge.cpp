// PBT rule: partitions of small Hilbert spaces by random Hamiltonians, merged for one to four pairs of adjoint operators (with and without storing matrix elements, pairs repeated), compared after each merge with the finest coarsening found by brute force; non-trivial = a merge joined subspaces and left more than one
#include "partition.hpp"
using namespace bridge;

namespace {

template <typename I, typename T, typename Make> void merge(pbt::Gen& g, pbt::Ctx& ctx, OpOpts o, Make const& make, bool big = false) {
  o.n_idx = big ? 10 : 6;
  o.sites.max_sites = big ? 14 : 6;
  o.sites.max_bits = big ? 11 : g.chance(1, 4) ? 8 : 6;
  o.sites.max_dim = big ? 1200 : g.chance(1, 4) ? 128 : 48;
  o.sites.max_mult = big ? 20 : 6;
  OpSpace<I> s(g, o);
  ctx << str(s.L.sites) << " H = ";
  auto states = s.L.all();
  ctx.label_if(states.size() > 200, "hundreds of states");
  Sum hs = gen_hamiltonian<T>(g, s.w, big ? 16 : 4);
  ctx << str(hs);
  auto he = to_expr<I, T>(s.pool, hs);
  auto h = make(he, s.hs);
  auto h_el = elements<I, T>(s, he, hs, h);
  Blocks want(states);
  for(auto const& p : h_el)
    want.join(p.first.first, p.first.second);
  auto sp = lc::make_space_partition(h, s.hs);

  std::list<Elements> els;
  std::vector<Elements const*> all;
  std::vector<decltype(h)> ops;
  int n = 1 + int(g.below(4));
  std::size_t before = want.count();
  for(int k = 0; k < n; ++k) {
    Sum od;
    switch(g.weighted({2, 1, 4})) {
    case 0: od.push_back({gen_scalar<T>(g, true), {gen_gs(g, s.w)}}); break;
    case 1: od.push_back({gen_scalar<T>(g, true), gen_word(g, s.w)}); break;
    default: {
      int m = 2 + int(g.below(2));
      bool up = g.flip();
      for(int i = 0; i < m; ++i)
        od.push_back({gen_scalar<T>(g, true), {g.chance(1, 4) ? gen_gs(g, s.w) : gen_ladder(g, s.w, up)}});
    }
    }
    shrink<T>(g, od);
    ctx << "; Od = " << str(od);
    auto ode = to_expr<I, T>(s.pool, od), oe = to_expr<I, T>(s.pool, dagger(od));
    auto Od = make(ode, s.hs), O = make(oe, s.hs);
    els.push_back(elements<I, T>(s, ode, od, Od));
    all.push_back(&els.back());
    auto const& od_el = els.back();
    els.push_back(elements<I, T>(s, oe, dagger(od), O));
    all.push_back(&els.back());
    auto const& o_el = els.back();
    bool store = !g.chance(1, 4);
    auto r = g.flip() || !store ? sp.merge_subspaces(Od, O, store) : sp.merge_subspaces(Od, O);
    close(want, all);
    auto number = check_partition(sp, states, want);
    if(store) {
      compare_elements<T>(r.first, od_el, "matrix elements of the first operator");
      compare_elements<T>(r.second, o_el, "matrix elements of the second operator");
    } else
      MUST(r.first.empty() && r.second.empty(), "matrix elements that must not be stored");
    ops.push_back(Od);
    ops.push_back(O);
    // One-to-one connections, as reported, for all operators so far
    for(std::size_t i = 0; i < ops.size(); ++i) {
      auto c = sp.find_connections(ops[i]);
      MUST(c == connections(number, *all[i]), "connections of operator ", i);
      std::set<u64> from, to;
      for(auto const& p : c) {
        MUST(from.insert(p.first).second, "operator ", i, " maps subspace ", p.first, " to several ones");
        MUST(to.insert(p.second).second, "operator ", i, " reaches subspace ", p.second, " from several ones");
      }
    }
    MUST(sp.find_connections(h) == connections(number, h_el), "connections of the Hamiltonian");
    for(auto const& p : sp.find_connections(h))
      MUST(p.first == p.second, "subspaces must stay invariant");
    // Any other operator
    if(g.chance(1, 2)) {
      Sum xs;
      for(int i = int(g.range(1, 6)); i > 0; --i)
        xs.push_back({gen_scalar<T>(g, true), gen_word(g, s.w)});
      ctx << "; X = " << str(xs);
      auto xe = to_expr<I, T>(s.pool, xs);
      auto X = make(xe, s.hs);
      MUST(sp.find_connections(X) == connections(number, elements<I, T>(s, xe, xs, X)), "connections of another operator");
    }
  }
  ctx.nontrivial(want.count() > 1 && want.count() < before);
  ctx.label_if(want.count() == before, "nothing to merge");
  ctx.label_if(want.count() == 1, "everything merged");
}
struct Make {
  template <typename E, typename H> auto operator()(E const& e, H const& hs) const { return lc::make_loperator(e, hs); }
};

} // namespace

PROP(real, 10000, 200000) { merge<IdxInt, double>(g, ctx, {}, Make{}); }
PROP(complex, 6000, 120000) { merge<IdxInt, cplx>(g, ctx, {}, Make{}); }
PROP(dynamic_indices, 6000, 120000) { merge<IdxDyn, double>(g, ctx, {}, Make{}); }
// Around a thousand states
PROP(real_big, 160, 5000) { merge<IdxInt, double>(g, ctx, {}, Make{}, true); }
PROP(complex_big, 80, 2500) { merge<IdxInt, cplx>(g, ctx, {}, Make{}, true); }
PROP(integer, 10000, 200000) {
  OpOpts o;
  o.sites.b = o.sites.s = false;
  merge<IdxInt, long>(g, ctx, o, [](auto const& e, auto const& hs) { return lc::loperator<long, lc::fermion>(e, hs); });
}
PROP(integer_big, 160, 5000) {
  OpOpts o;
  o.sites.b = o.sites.s = false;
  merge<IdxInt, long>(g, ctx, o, [](auto const& e, auto const& hs) { return lc::loperator<long, lc::fermion>(e, hs); }, true);
}
