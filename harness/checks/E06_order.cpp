// PBT rule: all pairs of a random pool of objects compared with an independent three-way comparison; non-trivial = the pool holds distinct objects of at least two algebras (or, for index sequences, of two lengths)
#include "hs.hpp"
using namespace bridge;
using namespace model;

namespace {

// IDs of user-defined algebras, for alg = 3, 4, ...
int user_id(int alg) {
  static const std::vector<int> ids = {lc::min_user_defined_algebra_id,
                                       lc::min_user_defined_algebra_id + 1, 1 << 30,
                                       std::numeric_limits<int>::max() - 1,
                                       std::numeric_limits<int>::max()};
  return ids[std::size_t(alg - 3)];
}

// A user-defined algebra: ordering is inherited
template <typename... Is> class user_gen : public lc::generator<Is...> {
  int id_;

public:
  template <typename... A>
  explicit user_gen(int id, A&&... a) : lc::generator<Is...>(std::forward<A>(a)...), id_(id) {}
  int algebra_id() const override { return id_; }
  lc::var_number
  swap_with(lc::generator<Is...> const&,
            typename lc::generator<Is...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename... Is> class user_space : public lc::elementary_space<Is...> {
  int id_;

public:
  template <typename... A>
  explicit user_space(int id, A&&... a)
    : lc::elementary_space<Is...>(std::forward<A>(a)...), id_(id) {}
  std::unique_ptr<lc::elementary_space<Is...>> clone() const override {
    return std::make_unique<user_space>(*this);
  }
  int algebra_id() const override { return id_; }
  lc::sv_index_type dim() const override { return 2; }
  int n_bits() const override { return 1; }
};
template <typename Tuple> struct User;
template <typename... Is> struct User<std::tuple<Is...>> {
  using gen = user_gen<Is...>;
  using space = user_space<Is...>;
};
template <typename I> using UserT = User<decltype(tup(std::declval<typename I::raw>()))>;

template <typename I>
std::shared_ptr<const typename I::gen_t> make_any(Pool<I> const& pool, GS const& x) {
  if(x.alg < 3) return make_gen<I>(pool, x);
  return std::apply(
      [&](auto const&... i) {
        return std::shared_ptr<const typename I::gen_t>(
            std::make_shared<typename UserT<I>::gen>(user_id(x.alg), i...));
      },
      tup(pool[x.idx]));
}
GS gen_any(pbt::Gen& g, int n_idx) {
  GS x;
  x.alg = int(g.weighted({8, 8, 10, 1, 1, 1, 1, 1}));
  x.idx = int(g.below(std::uint64_t(n_idx)));
  if(x.alg == S) {
    x.mult = 2 + int(g.chance(1, 8) ? g.below(300) : g.below(6));
    x.comp = int(g.below(3));
  } else if(x.alg < 3)
    x.comp = int(g.below(2));
  else
    x.comp = 1; // inherited order ascends with the indices, as for creation operators
  return x;
}
template <typename X, typename D>
void compare(X const& a, X const& b, int want, D const& da, D const& db) {
  MUST((a == b) == (want == 0), da, " == ", db);
  MUST((a != b) == (want != 0), da, " != ", db);
  MUST((a < b) == (want < 0), da, " < ", db);
  MUST((a > b) == (want > 0), da, " > ", db);
}
template <typename X> int sgn3(X const& a, X const& b) { return a < b ? -1 : (b < a ? 1 : 0); }

template <typename I> void generators(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, int(g.range(1, 6)));
  int n = int(pool.v.size());
  ctx << pool.str();
  std::vector<GS> d;
  std::vector<std::shared_ptr<const typename I::gen_t>> v;
  int m = 2 + int(g.below(9));
  std::set<int> algs;
  for(int i = 0; i < m; ++i) {
    d.push_back(gen_any(g, n));
    algs.insert(d.back().alg);
    v.push_back(make_any<I>(pool, d.back()));
    ctx << " " << d.back().str();
  }
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < m; ++j)
      compare(*v[std::size_t(i)], *v[std::size_t(j)], sgn3(d[std::size_t(i)], d[std::size_t(j)]),
              d[std::size_t(i)].str(), d[std::size_t(j)].str());
  ctx.nontrivial(algs.size() > 1);
}

template <typename I> void monomials(pbt::Gen& g, pbt::Ctx& ctx, int max_len = 5) {
  using M = typename I::template expr<double>::monomial_t;
  Pool<I> pool(g, int(g.range(1, 4)));
  int n = int(pool.v.size());
  std::vector<Word> d;
  std::vector<M> v;
  int m = 2 + int(g.below(6));
  bool mixed = false;
  for(int i = 0; i < m; ++i) {
    Word w;
    if(i && g.flip()) { // a small change of an earlier one
      w = d[std::size_t(g.below(d.size()))];
      if(w.empty() || g.chance(1, 4))
        w.push_back(gen_any(g, n));
      else if(g.chance(1, 3))
        w.pop_back();
      else
        w[std::size_t(g.below(w.size()))] = gen_any(g, n);
    } else {
      int len = int(g.range(0, max_len));
      for(int k = 0; k < len; ++k)
        w.push_back(gen_any(g, n));
    }
    std::vector<std::shared_ptr<const typename I::gen_t>> ptrs;
    for(auto const& x : w)
      ptrs.push_back(make_any<I>(pool, x));
    v.emplace_back(ptrs);
    mixed |= !d.empty() && d[0].size() != w.size();
    d.push_back(w);
    ctx << " | " << str(w);
  }
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < m; ++j) {
      auto const &a = d[std::size_t(i)], &b = d[std::size_t(j)];
      int want = WordLess()(a, b) ? -1 : (WordLess()(b, a) ? 1 : 0);
      compare(v[std::size_t(i)], v[std::size_t(j)], want, str(a), str(b));
    }
  ctx.nontrivial(mixed);
}

template <typename I> void spaces(pbt::Gen& g, pbt::Ctx& ctx) {
  Pool<I> pool(g, int(g.range(1, 5)));
  int n = int(pool.v.size());
  struct D {
    int alg;
    Site s;
  };
  std::vector<D> d;
  std::vector<std::unique_ptr<typename ST<I>::es>> v;
  int m = 2 + int(g.below(9));
  std::set<int> algs;
  auto three = [&](D const& a, D const& b) {
    if(a.alg != b.alg) return a.alg < b.alg ? -1 : 1;
    if(a.alg == S && a.s.dim != b.s.dim) return a.s.dim < b.s.dim ? -1 : 1;
    return a.s.m.idx < b.s.m.idx ? -1 : (a.s.m.idx > b.s.m.idx ? 1 : 0);
  };
  for(int i = 0; i < m; ++i) {
    D x;
    x.alg = int(g.weighted({8, 8, 10, 1, 1, 1, 1, 1}));
    x.s.m = {x.alg, x.alg == S ? 2 + int(g.chance(1, 8) ? g.below(300) : g.below(7)) : 0, int(g.below(std::uint64_t(n)))};
    x.s = site(x.s.m, g.boundary(1, 1u << 20));
    if(x.alg < 3)
      v.push_back(make_space<I>(pool, x.s));
    else
      v.push_back(std::apply(
          [&](auto const&... k) -> std::unique_ptr<typename ST<I>::es> {
            return std::make_unique<typename UserT<I>::space>(user_id(x.alg), k...);
          },
          tup(pool[x.s.m.idx])));
    d.push_back(x);
    algs.insert(x.alg);
    ctx << " " << x.alg << ":" << x.s.str();
  }
  for(int i = 0; i < m; ++i) {
    auto const &a = d[std::size_t(i)];
    auto c = v[std::size_t(i)]->clone();
    compare(*c, *v[std::size_t(i)], 0, a.s.str(), std::string("its clone"));
    MUST(c->dim() == v[std::size_t(i)]->dim() && c->n_bits() == v[std::size_t(i)]->n_bits() &&
             c->indices() == v[std::size_t(i)]->indices(),
         "clone of ", a.s.str());
    if(a.alg < 3) {
      MUST(c->dim() == a.s.dim && c->n_bits() == a.s.bits(), "dim or bits of ", a.s.str(), ": ",
           c->dim(), ", ", c->n_bits());
      MUST(c->algebra_id() == (a.alg == F ? lc::fermion : a.alg == B ? lc::boson : lc::spin),
           "algebra id");
    }
    for(int j = 0; j < m; ++j)
      compare(*v[std::size_t(i)], *v[std::size_t(j)], three(a, d[std::size_t(j)]), a.s.str(),
              d[std::size_t(j)].s.str());
  }
  ctx.nontrivial(algs.size() > 1);
}

} // namespace

PROP(generators_int, 160000, 4000000) { generators<IdxInt>(g, ctx); }
PROP(generators_strint, 160000, 4000000) { generators<IdxStrInt>(g, ctx); }
PROP(generators_dyn, 160000, 4000000) { generators<IdxDyn>(g, ctx); }
PROP(generators_user, 120000, 3000000) { generators<IdxUser>(g, ctx); }
PROP(monomials_user, 120000, 3000000) { monomials<IdxUser>(g, ctx); }
PROP(monomials_long, 8000, 240000) { monomials<IdxInt>(g, ctx, 100); }
PROP(monomials_very_long, 200, 6000) { monomials<IdxInt>(g, ctx, 700); }
PROP(spaces_user, 120000, 3000000) { spaces<IdxUser>(g, ctx); }
PROP(monomials_int, 160000, 4000000) { monomials<IdxInt>(g, ctx); }
PROP(monomials_dyn, 160000, 4000000) { monomials<IdxDyn>(g, ctx); }
PROP(spaces_strint, 160000, 4000000) { spaces<IdxStrInt>(g, ctx); }
PROP(spaces_dyn, 160000, 4000000) { spaces<IdxDyn>(g, ctx); }

PROP(dynamic_indices, 160000, 4000000) {
  std::vector<IdxDyn::raw> d;
  std::vector<IdxDyn::dyn> v;
  int m = 2 + int(g.below(8));
  bool lengths = false;
  for(int i = 0; i < m; ++i) {
    IdxDyn::raw r;
    if(i && g.flip()) {
      r = d[std::size_t(g.below(d.size()))];
      auto x = IdxDyn::gen_raw(g);
      if(!r.empty() && !x.empty())
        r[std::size_t(g.below(r.size()))] = x[0];
      else
        r.insert(r.end(), x.begin(), x.end());
    } else {
      int n = int(g.range(0, 2));
      for(int k = 0; k < n; ++k) {
        auto x = IdxDyn::gen_raw(g);
        r.insert(r.end(), x.begin(), x.end());
      }
    }
    lengths |= !d.empty() && r.size() != d[0].size();
    d.push_back(r);
    v.emplace_back(r);
    ctx << " (" << IdxDyn::raw_str(r) << ")";
    MUST(v.back().size() == r.size(), "size()");
    MUST(static_cast<IdxDyn::raw const&>(v.back()) == r, "stored sequence");
  }
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < m; ++j) {
      auto const &a = d[std::size_t(i)], &b = d[std::size_t(j)];
      int want = IdxDyn::raw_less(a, b) ? -1 : (IdxDyn::raw_less(b, a) ? 1 : 0);
      compare(v[std::size_t(i)], v[std::size_t(j)], want, IdxDyn::raw_str(a), IdxDyn::raw_str(b));
    }
  // Perfect forwarding constructors
  int i = gen_int_idx(g);
  std::string s = gen_name(g);
  using dyn = IdxDyn::dyn;
  MUST(dyn(i) == dyn(IdxDyn::raw{i}) && dyn(s) == dyn(IdxDyn::raw{s}), "one index");
  MUST(dyn(i, s) == dyn(IdxDyn::raw{i, s}) && dyn(s, i, s) == dyn(IdxDyn::raw{s, i, s}), "several");
  MUST(dyn(s.c_str(), i) == dyn(s, i), "C string");
  ctx.nontrivial(lengths);
}
