// PBT rule: random expressions (also with high boson powers and a user-defined algebra) and Hilbert spaces missing a random subset of what they need, for all chains of algebra IDs; non-trivial = an operator of two or more algebras, or a rejection caused by a generator that is not the first of its monomial
#include "user_space.hpp"
using namespace bridge;

namespace {
class UserGen : public lc::generator<int> {
  int id_;

public:
  UserGen(int id, int i) : lc::generator<int>(i), id_(id) {}
  int algebra_id() const override { return id_; }
  lc::var_number swap_with(lc::generator<int> const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
  std::string to_string() const override { return "u" + std::to_string(id_); }
};
} // namespace

namespace libcommute {
// Operators of user algebra 0 multiply by 1 + occupation of their space
template <> class monomial_action<0> {
  std::vector<std::pair<int, int>> r_;

public:
  template <typename... Is>
  monomial_action(detail::monomial_range_t<Is...> const& range, hilbert_space<Is...> const& hs) {
    for(auto it = range.first; it != range.second; ++it) {
      if(it->algebra_id() != 0) throw unknown_generator<Is...>(*it);
      bridge::UserSpace<Is...> es(0, 1, 0, it->indices());
      if(!hs.has(es)) throw unknown_generator<Is...>(*it);
      r_.push_back(hs.bit_range(es));
    }
  }
  template <typename T> bool act(sv_index_type& index, T& coeff) const {
    for(auto const& r : r_)
      coeff *= T(1 + ((index >> r.first) & ((sv_index_type(1) << (r.second - r.first + 1)) - 1)));
    return true;
  }
};
} // namespace libcommute

namespace {

using E = lc::expression<double, int>;

template <int... Ids>
bool attempt(pbt::Ctx& ctx, E const& e, ST<IdxInt>::hs const& hs,
             std::function<bool(lc::generator<int> const&)> const& in_space) {
  std::set<int> ids = {Ids...};
  bool fits = true, not_first = false, mixed = false;
  for(auto const& t : e) {
    bool first = true;
    std::set<int> a;
    for(auto const& x : t.monomial) {
      bool ok = ids.count(x.algebra_id()) && in_space(x);
      fits &= ok;
      not_first |= !ok && !first;
      first = false;
      a.insert(x.algebra_id());
    }
    mixed |= a.size() > 1;
  }
  bool thrown = false;
  try {
    lc::loperator<double, Ids...> op(e, hs);
    (void)op;
  } catch(lc::unknown_generator<int> const& x) {
    thrown = true;
    MUST(x.generator_ptr != nullptr, "no generator in the exception");
    auto const& gen = *x.generator_ptr;
    MUST(!(ids.count(gen.algebra_id()) && in_space(gen)), "exception blames ", gen.to_string(), ", which is fine");
    bool found = false;
    for(auto const& t : e)
      for(auto const& y : t.monomial)
        found |= gen == y;
    MUST(found, "exception names a generator that does not occur");
    MUST(std::string(x.what()).find(gen.to_string()) != std::string::npos, "message ", x.what(),
         " does not name the generator");
  }
  MUST(thrown == !fits, fits ? "rejected although everything is there" : "accepted although a generator has no elementary space or algebra");
  ctx.nontrivial(not_first || (fits && mixed));
  ctx.label(fits ? "accepted" : "rejected");
  return fits;
}

} // namespace

PROP(fit_or_reject, 960000, 19200000) {
  model::WorldOpts o;
  o.max_modes = 5;
  auto w = model::gen_world(g, o);
  Pool<IdxInt> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  E e;
  int n = g.len(0, 4);
  bool user = g.chance(1, 4);
  for(int i = 0; i < n; ++i) {
    E m(Sc<double>::from(gen_scalar<double>(g, true)));
    int len = int(g.below(5));
    for(int k = 0; k < len; ++k) {
      GS x = gen_gs(g, w);
      int p = x.alg == model::F || x.alg == model::S ? 1 : int(g.weighted({4, 2, 1, 1, 1})) + 1;
      for(int j = 0; j < p; ++j)
        m *= gen_expr<IdxInt, double>(pool, x);
    }
    if(user && g.flip())
      m *= E(1.0, E::monomial_t({std::make_shared<UserGen>(g.chance(1, 4) ? 1 : 0, pool[int(g.below(3))])}));
    e += m;
  }
  ctx << e;
  // The spaces
  std::vector<Site> all, kept;
  for(auto const& p : w.protos)
    all.push_back(site(model::mode_of(p), g.urange(1, 5)));
  for(int i = 0; i < 3 && user; ++i) {
    Site s{{3, 0, i % int(pool.v.size())}, g.urange(1, 4)};
    bool dup = false;
    for(auto const& x : all)
      dup |= x.m == s.m;
    if(!dup) all.push_back(s);
  }
  int extra = int(g.below(3));
  for(int i = 0; i < extra; ++i) {
    Site s = gen_any_site(g, int(pool.v.size()), 4, 1);
    if(s.m.alg == model::S) s = site({model::S, 2 + s.m.mult % 5, s.m.idx}, 0);
    bool dup = false;
    for(auto const& x : all)
      dup |= x.m == s.m;
    if(!dup) all.push_back(s);
  }
  unsigned keep = g.pick(std::vector<unsigned>{8, 7, 6, 4});
  ST<IdxInt>::hs hs;
  for(auto const& s : all)
    if(g.chance(keep, 8)) {
      kept.push_back(s);
      hs.add(*make_any_space<IdxInt>(pool, s));
    }
  ctx << " in " << str(kept);
  auto in_space = [&](lc::generator<int> const& x) {
    model::Mode m;
    if(x.algebra_id() >= 0)
      m = {3 + x.algebra_id(), 0, pool.rank(std::get<0>(x.indices()))};
    else
      m = model::mode_of(to_gs<IdxInt>(pool, x));
    for(auto const& s : kept)
      if(s.m == m) return true;
    return false;
  };
  using namespace lc;
  switch(g.below(10)) {
  case 0: attempt<fermion>(ctx, e, hs, in_space); break;
  case 1: attempt<boson>(ctx, e, hs, in_space); break;
  case 2: attempt<spin>(ctx, e, hs, in_space); break;
  case 3: attempt<fermion, boson>(ctx, e, hs, in_space); break;
  case 4: attempt<fermion, spin>(ctx, e, hs, in_space); break;
  case 5: attempt<boson, spin>(ctx, e, hs, in_space); break;
  case 6: attempt<>(ctx, e, hs, in_space); break;
  case 7: attempt<fermion, boson, spin, 0>(ctx, e, hs, in_space); break;
  default: {
    bool fits = attempt<fermion, boson, spin>(ctx, e, hs, in_space);
    if(fits)
      lc::make_loperator(e, hs);
    else
      MUST_THROW(lc::unknown_generator<int>, lc::make_loperator(e, hs));
  }
  }
}
