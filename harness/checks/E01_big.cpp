// Long products of generators of dozens of modes, acting on states
#include "big.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I, typename T> void long_action(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  auto b = gen_big(g, 50, Sc<T>::rational);
  Pool<I> pool(g, b.n_idx);
  if(int(pool.v.size()) < b.n_idx) throw pbt::Discard();
  int n = int(g.range(1, 4)); // Sum of products
  WordSum<T> s;
  E e;
  for(int i = 0; i < n; ++i) {
    Word w = big_word(g, b.w, i ? 10 : 50, int(g.weighted({4, 3, 2, 1})));
    CQ c = gen_scalar<T>(g, true);
    ctx << (i ? " + " : "") << c << "." << str(w);
    s.push_back({c, w});
    auto k = std::size_t(g.below(w.size() + 1));
    e += Sc<T>::from(c) * (word_expr<I, T>(pool, Word(w.begin(), w.begin() + long(k)), CQ(1)) *
                           word_expr<I, T>(pool, Word(w.begin() + long(k), w.end()), CQ(1)));
  }
  auto modes = world_modes(b.w);
  auto ts = terms<I, T>(pool, e);
  bool nonzero = false;
  for(int k = 0; k < 4; ++k) {
    Occ o = gen_occ(g, modes, 3);
    if(k < 3) { // What the longest product does not annihilate at once
      std::map<Mode, int> first;
      for(auto it = s[0].second.rbegin(); it != s[0].second.rend(); ++it)
        first.emplace(mode_of(*it), it->comp);
      for(std::size_t i = 0; i < modes.size(); ++i) {
        auto it = first.find(modes[i]);
        if(it == first.end()) continue;
        if(modes[i].alg == F) o[i] = it->second ? 0 : 1;
        if(modes[i].alg == B) o[i] += 1;
        if(modes[i].alg == S && it->second == P) o[i] = 0;
        if(modes[i].alg == S && it->second == M) o[i] = modes[i].mult - 1;
      }
    }
    State in{{o, CQ(1)}}, want;
    for(auto const& t : s)
      for(auto const& p : act(t.second, t.first, modes, in))
        add_to(want, p.first, p.second);
    State got = act(ts, modes, in);
    MUST(got == want, "state ", str(in), " gives ", str(got), " instead of ", str(want));
    nonzero |= !want.empty();
  }
  ctx.nontrivial(nonzero && s[0].second.size() > 10);
  ctx.label_if(s[0].second.size() > 32, "more than 32 generators");
}

} // namespace

PROP(long_action_rational, 6000, 180000) { long_action<IdxInt, mpq_class>(g, ctx); }
PROP(long_action_real, 6000, 180000) { long_action<IdxStrInt, double>(g, ctx); }
PROP(long_action_complex, 4000, 120000) { long_action<IdxDyn, std::complex<double>>(g, ctx); }
PROP(long_action_integer, 4000, 120000) { long_action<IdxInt, int>(g, ctx); }
