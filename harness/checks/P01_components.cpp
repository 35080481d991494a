// PBT rule: Hermitian and other operators given as random sums of words (mostly particle-conserving) in small, possibly sparse Hilbert spaces and in invariant subsets of them; matrix elements and connected components are recomputed exactly; non-trivial = two or more subspaces, at least one of them with several states
#include "partition.hpp"
using namespace bridge;

namespace user {
// A Hilbert space type of the user's own: a list of basis states
struct some_states {
  std::vector<u64> states;
  u64 size;
  u64 dim() const { return states.size(); }
};
u64 get_vec_size(some_states const& s) { return s.size; }
template <typename F> void foreach(some_states const& s, F&& f) {
  for(u64 n : s.states)
    f(n);
}
} // namespace user

namespace {

template <typename I, typename T, typename Make> void components(pbt::Gen& g, pbt::Ctx& ctx, OpOpts o, Make const& make, bool big = false) {
  o.n_idx = big ? 10 : 6;
  o.sites.max_sites = big ? 14 : 6;
  o.sites.max_bits = big ? 11 : g.chance(1, 4) ? 8 : 6;
  o.sites.max_dim = big ? 1200 : g.chance(1, 4) ? 128 : 48;
  o.sites.max_mult = big ? 20 : 6;
  OpSpace<I> s(g, o);
  ctx << str(s.L.sites) << " ";
  Sum sum = gen_hamiltonian<T>(g, s.w, big ? 16 : 4);
  if(g.chance(1, 4)) sum.push_back({gen_scalar<T>(g, true), gen_word(g, s.w)});
  ctx << str(sum);
  auto e = to_expr<I, T>(s.pool, sum);
  auto h = make(e, s.hs);
  auto want_e = elements<I, T>(s, e, sum, h);
  auto states = s.L.all();
  ctx.label_if(states.size() > 200, "hundreds of states");
  Blocks want(states);
  for(auto const& p : want_e)
    want.join(p.first.first, p.first.second);
  ctx.nontrivial(want.count() > 1 && want.count() < states.size());
  ctx.label_if(s.hs.is_sparse(), "sparse");

  lc::matrix_elements_map<T> me;
  if(g.chance(1, 4)) // What another operator has left behind is replaced
    for(auto const& p : want_e)
      if(g.flip()) me[{p.first.first, p.first.second}] = T(7);
  auto one = lc::make_space_partition(h, s.hs);
  auto two = lc::make_space_partition(h, s.hs, me);
  auto number = check_partition(one, states, want);
  check_partition(two, states, want);
  compare_elements<T>(me, want_e, "matrix elements");
  MUST(one.dim() == s.hs.dim(), "dim()");
  MUST(one.find_connections(h) == connections(number, want_e), "connections");
  if(g.chance(1, 2)) {
    Sum xs;
    for(int i = int(g.range(1, 6)); i > 0; --i)
      xs.push_back({gen_scalar<T>(g, true), gen_word(g, s.w)});
    shrink<T>(g, xs);
    ctx << "; X = " << str(xs);
    auto xe = to_expr<I, T>(s.pool, xs);
    auto X = make(xe, s.hs);
    MUST(one.find_connections(X) == connections(number, elements<I, T>(s, xe, xs, X)), "connections of another operator");
  }
  auto copy = one;
  check_partition(copy, states, want);
  // States that do not exist
  for(int i = 0; i < 3; ++i) {
    u64 n = g.below(s.hs.vec_size());
    if(!s.L.valid(n)) MUST_THROW(std::out_of_range, one[n]);
  }

  // A user's space made of some of the invariant subspaces, in an order of its own
  user::some_states us{{}, s.hs.vec_size()};
  for(u64 n : states)
    if(want.find(n) % 3 != 1) us.states.push_back(n);
  us.states = g.shuffled(us.states);
  if(us.states.empty()) return;
  Blocks uw(us.states);
  Elements ue;
  for(auto const& p : want_e)
    if(want.find(p.first.first) % 3 != 1) {
      uw.join(p.first.first, p.first.second);
      ue.insert(p);
    }
  lc::matrix_elements_map<T> ume;
  auto up = lc::make_space_partition(h, us, ume);
  check_partition(up, us.states, uw);
  compare_elements<T>(ume, ue, "matrix elements in a subset");
  MUST(up.dim() == us.states.size(), "dim() of a subset");
}
struct Make {
  template <typename E, typename H> auto operator()(E const& e, H const& hs) const { return lc::make_loperator(e, hs); }
};

} // namespace

PROP(real, 12000, 240000) { components<IdxInt, double>(g, ctx, {}, Make{}); }
PROP(complex, 8000, 160000) { components<IdxInt, cplx>(g, ctx, {}, Make{}); }
PROP(dynamic_indices, 6000, 120000) { components<IdxDyn, double>(g, ctx, {}, Make{}); }
// Around a thousand states
PROP(real_big, 160, 5000) { components<IdxInt, double>(g, ctx, {}, Make{}, true); }
PROP(complex_big, 80, 2500) { components<IdxInt, cplx>(g, ctx, {}, Make{}, true); }
PROP(integer, 10000, 200000) {
  OpOpts o;
  o.sites.b = o.sites.s = false;
  components<IdxInt, long>(g, ctx, o, [](auto const& e, auto const& hs) { return lc::loperator<long, lc::fermion>(e, hs); });
}
PROP(integer_big, 160, 5000) {
  OpOpts o;
  o.sites.b = o.sites.s = false;
  components<IdxInt, long>(g, ctx, o, [](auto const& e, auto const& hs) { return lc::loperator<long, lc::fermion>(e, hs); }, true);
}
