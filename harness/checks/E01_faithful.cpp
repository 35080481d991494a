// PBT rule: random expression trees and long generator words over mixed modes; non-trivial = at least one product of two generators acting on a shared mode or algebra changed the order of factors or contracted, and the operator does not vanish identically on the sampled states
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename T> World world_for(pbt::Gen& g) {
  WorldOpts o;
  World w = gen_world(g, o);
  if(!Sc<T>::rational)
    for(auto& p : w.protos)
      if(p.alg == S && p.mult == 2) p.mult = 3;
  return w;
}

std::vector<std::pair<Word, CQ>> plain(std::vector<std::pair<Word, CQ>> const& t) { return t; }

template <typename I, typename T>
void compare_action(pbt::Gen& g, pbt::Ctx& ctx, Pool<I> const& pool, World const& w,
                    typename I::template expr<T> const& e, Node const& tree, int deg) {
  auto modes = world_modes(w);
  auto ts = plain(terms<I, T>(pool, e));
  bool nonzero = false;
  int n_states = 4;
  for(int k = 0; k < n_states; ++k) {
    Occ o = gen_occ(g, modes, deg + 1);
    State s{{o, CQ(1)}};
    State expected = eval_state(tree, modes, s);
    State got = act(ts, modes, s);
    nonzero |= !expected.empty();
    MUST(expected == got, "state ", str(s), " expected ", str(expected), " got ", str(got),
         " from ", str(canon_of(ts)));
  }
  ctx.nontrivial(nonzero && deg >= 2);
  ctx.label_if(nonzero, "acts non-trivially");
  ctx.label(pbt::cat("degree ", deg));
  ctx.label_if(ts.size() > 3, "more than 3 monomials");
}

template <typename I, typename T> void tree_case(pbt::Gen& g, pbt::Ctx& ctx) {
  World w = world_for<T>(g);
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  int maxdeg = 1 + g.size() * 6 / 100;
  NodeP t = gen_tree<T>(g, w, maxdeg, 24, 5);
  ctx << "indices " << pool.str() << " tree " << str(*t);
  auto e = eval_lib<I, T>(pool, *t);
  ctx << " -> " << e;
  compare_action<I, T>(g, ctx, pool, w, e, *t, t->deg);
}

// A long product of generators, multiplied together in a random association
template <typename I, typename T> void word_case(pbt::Gen& g, pbt::Ctx& ctx) {
  WorldOpts o;
  o.max_modes = 3;
  o.max_idx = 3;
  World w = gen_world(g, o);
  if(!Sc<T>::rational)
    for(auto& p : w.protos)
      if(p.alg == S && p.mult == 2) p.mult = 4;
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  int n = 2 + int(g.below(std::uint64_t(1 + g.size() * 8 / 100)));
  std::vector<NodeP> fs;
  for(int i = 0; i < n; ++i) {
    auto x = std::make_shared<Node>();
    x->kind = Node::Gen;
    x->gs = gen_gs(g, w);
    x->deg = x->terms = 1;
    fs.push_back(x);
  }
  Word word;
  for(auto const& f : fs)
    word.push_back(f->gs);
  bool direct = g.flip();
  while(fs.size() > 1) {
    std::size_t i = std::size_t(g.below(fs.size() - 1));
    auto x = std::make_shared<Node>();
    x->kind = Node::Mul;
    x->form = int(g.below(2));
    x->l = fs[i];
    x->r = fs[i + 1];
    x->deg = x->l->deg + x->r->deg;
    fs[i] = x;
    fs.erase(fs.begin() + long(i) + 1);
  }
  ctx << "indices " << pool.str() << " word " << str(word) << (direct ? " (one monomial)" : "");
  using E = typename I::template expr<T>;
  E e;
  if(direct) {
    std::vector<std::shared_ptr<const typename I::gen_t>> v;
    for(auto const& x : word)
      v.push_back(make_gen<I>(pool, x));
    e = E(T(1), typename E::monomial_t(v));
  } else
    e = eval_lib<I, T>(pool, *fs[0]);
  ctx << " -> " << e;
  compare_action<I, T>(g, ctx, pool, w, e, *fs[0], n);
}

} // namespace

PROP(tree_int_mpq, 30000, 600000) { tree_case<IdxInt, mpq_class>(g, ctx); }
PROP(tree_strint_double, 30000, 600000) { tree_case<IdxStrInt, double>(g, ctx); }
PROP(tree_dyn_complex, 30000, 600000) { tree_case<IdxDyn, std::complex<double>>(g, ctx); }
PROP(tree_int_int, 30000, 600000) { tree_case<IdxInt, int>(g, ctx); }
PROP(word_int_mpq, 40000, 800000) { word_case<IdxInt, mpq_class>(g, ctx); }
PROP(word_strint_double, 40000, 800000) { word_case<IdxStrInt, double>(g, ctx); }
PROP(word_dyn_complex, 40000, 800000) { word_case<IdxDyn, std::complex<double>>(g, ctx); }
