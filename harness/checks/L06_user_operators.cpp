// PBT rule: sums of words mixing two user-defined algebras (site-local sign/flip operators with metric +-1; nilpotent steps with a level counter, 2 to 9 levels) with fermions, bosons and spins, acted on superpositions in Hilbert spaces of up to 12 elementary spaces, and whole matrices, compressed and mapped views and partitions of small spaces; non-trivial = the image has a nonzero amplitude and a word combines a user generator with another generator
#include "partition.hpp"
#include "user_space.hpp"
using namespace bridge;

namespace {

constexpr int U0 = 3, U7 = 10; // model::Mode::alg of the user's algebras 0 and 7
constexpr int Z = 0, X = 1;    // of algebra 0
constexpr int T_ = 0, N_ = 1;  // of algebra 7

// Generators of the user's algebras. 'par' is X^2 or the number of levels of the site.
template <typename... Is> class UserGen : public lc::generator<Is...> {
  using base = lc::generator<Is...>;

public:
  int id, comp, par;
  template <typename... A>
  UserGen(int id, int comp, int par, A&&... i) : base(std::forward<A>(i)...), id(id), comp(comp), par(par) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(base const& b, typename base::linear_function_t& f) const override {
    auto const& g = dynamic_cast<UserGen const&>(b);
    f.set(0);
    if(!base::equal(b)) return 1;
    if(id == 0) return -1; // X Z = -Z X
    f.set(0, g.shared_from_this(), 1); // N T = T N + T
    return 1;
  }
  bool simplify_prod(base const& b, typename base::linear_function_t& f) const override {
    if(!this->equal(b)) return false;
    if(id == 0) {
      f.set(comp == Z ? 1 : par);
      return true;
    }
    if(comp == T_ && par == 2) {
      f.set(0);
      return true;
    }
    return false;
  }
  bool reduce_power(int power, typename base::linear_function_t& f) const override {
    if(id == 0 || comp != T_ || power < par) return false;
    f.set(0);
    return true;
  }
  std::string to_string() const override {
    return "U" + std::to_string(id) + "/" + std::to_string(comp) + "(" + lc::tuple_to_string(this->indices()) + ")";
  }

protected:
  bool equal(base const& b) const override {
    return comp == dynamic_cast<UserGen const&>(b).comp && base::equal(b);
  }
  bool less(base const& b) const override {
    if(!base::equal(b)) return base::less(b);
    return comp < dynamic_cast<UserGen const&>(b).comp;
  }
  bool greater(base const& b) const override {
    if(!base::equal(b)) return base::greater(b);
    return comp > dynamic_cast<UserGen const&>(b).comp;
  }
};

} // namespace

namespace libcommute {
namespace user_impl {
struct step {
  int comp, par, shift;
  sv_index_type mask;
};
template <int Id, typename... Is>
std::vector<step> steps(detail::monomial_range_t<Is...> const& range, hilbert_space<Is...> const& hs) {
  std::vector<step> r;
  for(auto it = range.first; it != range.second; ++it) {
    if(it->algebra_id() != Id) throw unknown_generator<Is...>(*it);
    auto const& x = dynamic_cast<UserGen<Is...> const&>(*it);
    bridge::UserSpace<Is...> es(Id, 1, 0, it->indices());
    if(!hs.has(es)) throw unknown_generator<Is...>(*it);
    auto br = hs.bit_range(es);
    r.push_back({x.comp, x.par, br.first, (sv_index_type(1) << (br.second - br.first + 1)) - 1});
  }
  std::reverse(r.begin(), r.end());
  return r;
}
} // namespace user_impl

template <> class monomial_action<0> {
  std::vector<user_impl::step> r_;

public:
  template <typename... Is>
  monomial_action(detail::monomial_range_t<Is...> const& range, hilbert_space<Is...> const& hs)
    : r_(user_impl::steps<0, Is...>(range, hs)) {}
  template <typename T> bool act(sv_index_type& index, T& coeff) const {
    for(auto const& s : r_) {
      bool one = (index >> s.shift) & 1;
      if(s.comp == Z)
        coeff *= T(one ? -1 : 1);
      else {
        if(one) coeff *= T(s.par);
        index ^= sv_index_type(1) << s.shift;
      }
    }
    return true;
  }
};
template <> class monomial_action<7> {
  std::vector<user_impl::step> r_;

public:
  template <typename... Is>
  monomial_action(detail::monomial_range_t<Is...> const& range, hilbert_space<Is...> const& hs)
    : r_(user_impl::steps<7, Is...>(range, hs)) {}
  template <typename T> bool act(sv_index_type& index, T& coeff) const {
    for(auto const& s : r_) {
      auto n = (index >> s.shift) & s.mask;
      if(s.comp == N_) {
        if(n == 0) return false;
        coeff *= T(n);
      } else {
        if(n + 1 >= sv_index_type(s.par)) return false;
        coeff *= T(n + 1);
        index += sv_index_type(1) << s.shift;
      }
    }
    return true;
  }
};
} // namespace libcommute

namespace {

using Vec = std::map<std::vector<int>, cplx>;

struct World6 {
  std::vector<Site> sites; // sorted
  std::vector<int> par;
  std::size_t at(GS const& x) const {
    for(std::size_t i = 0; i < sites.size(); ++i)
      if(sites[i].m == model::mode_of(x)) return i;
    throw pbt::Failure("unknown site");
  }
};

// One generator applied to one basis state
bool apply(World6 const& w, GS const& x, std::vector<int>& n, cplx& a) {
  auto i = w.at(x);
  auto const& m = w.sites[i].m;
  int& k = n[i];
  switch(m.alg) {
  case model::F: {
    if(k == x.comp) return false;
    int p = 0;
    for(std::size_t j = 0; j < i; ++j)
      if(w.sites[j].m.alg == model::F) p += n[j];
    if(p % 2) a = -a;
    k = x.comp;
    return true;
  }
  case model::B:
    if(x.comp) {
      ++k;
      a *= std::sqrt(double(k));
    } else {
      if(k == 0) return false;
      a *= std::sqrt(double(k));
      --k;
    }
    return true;
  case model::S: {
    int s2 = m.mult - 1;
    if(x.comp == model::Z) {
      a *= k - s2 / 2.0;
      return true;
    }
    if(x.comp == model::P) {
      if(k == s2) return false;
      a *= std::sqrt(double((k + 1) * (s2 - k)));
      ++k;
    } else {
      if(k == 0) return false;
      a *= std::sqrt(double(k * (s2 - k + 1)));
      --k;
    }
    return true;
  }
  case U0:
    if(x.comp == Z) {
      if(k) a = -a;
    } else {
      if(k) a *= w.par[i];
      k = 1 - k;
    }
    return true;
  default:
    if(x.comp == N_) {
      a *= k;
      return k != 0;
    }
    if(k + 1 >= w.par[i]) return false;
    a *= k + 1;
    ++k;
    return true;
  }
}

// The matrix element of T is n + 1, which does not change N T = T N + T
Vec act(World6 const& w, Sum const& s, Vec const& in) {
  Vec out;
  for(auto const& t : s)
    for(auto const& p : in) {
      auto n = p.first;
      cplx a = p.second * cplx(t.first.re.get_d(), t.first.im.get_d());
      bool ok = true;
      for(auto it = t.second.rbegin(); ok && it != t.second.rend(); ++it)
        ok = apply(w, *it, n, a);
      if(ok) out[n] += a;
    }
  return out;
}

u64 index_of(Layout const& L, std::vector<int> const& n) { return L.encode({n.begin(), n.end()}); }

template <typename I> auto user_gen(Pool<I> const& pool, GS const& x, int par) {
  return std::apply(
      [&](auto const&... i) -> std::shared_ptr<const typename I::gen_t> {
        using G = UserGen<std::decay_t<decltype(i)>...>;
        return std::make_shared<G>(x.alg - 3, x.comp, par, i...);
      },
      tup(pool[x.idx]));
}
template <typename I, typename T>
typename I::template expr<T> one_gen(Pool<I> const& pool, World6 const& w, GS const& x) {
  using E = typename I::template expr<T>;
  if(x.alg <= model::S) return gen_expr<I, T>(pool, x);
  return E(T(1), typename E::monomial_t({user_gen<I>(pool, x, w.par[w.at(x)])}));
}

std::string str6(GS const& x) {
  if(x.alg <= model::S) return model::str({x});
  return (x.alg == U0 ? (x.comp == Z ? "Z" : "X") : x.comp == T_ ? "T" : "N") + std::string("(") + std::to_string(x.idx) + ")";
}
std::string str6(Sum const& s) {
  std::string r;
  for(auto const& t : s) {
    r += pbt::cat(r.empty() ? "" : " + ", t.first, ".");
    for(auto const& x : t.second)
      r += str6(x);
  }
  return r;
}

// 'algs' lists the algebras allowed; 'exact' keeps all matrix elements dyadic and the space small
World6 gen_world6(pbt::Gen& g, std::vector<int> const& algs, int n_idx, bool exact) {
  World6 w;
  std::vector<std::pair<Site, int>> v;
  int n = g.len(1, exact ? 5 : 12);
  u64 dim = 1;
  for(int i = 0; i < n; ++i) {
    Site s;
    s.m.alg = g.pick(algs);
    s.m.idx = int(g.below(u64(n_idx)));
    int par = 0;
    s.m.mult = s.m.alg == model::S ? (exact ? 2 : int(g.range(2, 7))) : 0;
    if(s.m.alg == U0) par = g.flip() ? 1 : -1;
    if(s.m.alg == U7) par = int(g.range(2, exact ? 4 : 9));
    s.dim = s.m.alg == model::B ? u64(g.range(16, 40)) : s.m.alg == model::S ? u64(s.m.mult) : s.m.alg == U7 ? u64(par) : 2;
    bool dup = false;
    for(auto const& x : v)
      dup |= x.first.m == s.m;
    if(dup || (exact && dim * s.dim > 128)) continue;
    dim *= s.dim;
    v.emplace_back(s, par);
  }
  if(v.empty()) throw pbt::Discard();
  std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
  int bits = 0;
  for(auto const& x : v) {
    bits += x.first.bits();
    if(bits > 60) break;
    w.sites.push_back(x.first);
    w.par.push_back(x.second);
  }
  return w;
}
GS gen6(pbt::Gen& g, World6 const& w, bool user) {
  for(int k = 0; k < 6; ++k) {
    auto const& m = g.pick(w.sites).m;
    if(user && m.alg <= model::S) continue;
    GS x;
    x.alg = m.alg;
    x.idx = m.idx;
    x.mult = m.mult;
    x.comp = m.alg == model::S ? g.pick(std::vector<int>{model::P, model::M, model::Z}) : int(g.below(2));
    return x;
  }
  throw pbt::Discard();
}
template <typename T> Sum gen_sum6(pbt::Gen& g, World6 const& w, bool& mixed) {
  Sum s;
  for(int i = int(g.range(1, 5)); i > 0; --i) {
    model::Word wd;
    bool user = false;
    int n = int(g.range(1, 6));
    for(int k = 0; k < n; ++k) {
      if(k && g.chance(1, 4))
        wd.push_back(wd.back());
      else
        wd.push_back(gen6(g, w, k == 0));
      user |= wd.back().alg > model::S;
    }
    mixed |= user && wd.size() > 1;
    s.push_back({gen_scalar<T>(g, true), wd});
  }
  return s;
}
template <typename I, typename T>
typename I::template expr<T> expr6(Pool<I> const& pool, World6 const& w, Sum const& s) {
  typename I::template expr<T> e;
  for(auto const& t : s) {
    typename I::template expr<T> x(Sc<T>::from(t.first));
    for(auto const& y : t.second)
      x *= one_gen<I, T>(pool, w, y);
    e += x;
  }
  return e;
}
template <typename I> auto space6(Pool<I> const& pool, std::vector<Site> const& v) {
  typename ST<I>::hs r;
  for(auto const& s : v)
    r.add(*make_any_space<I>(pool, s));
  return r;
}

bool close_to(cplx a, cplx b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }

template <typename T, typename E, typename HS, int... Ids> struct Op {
  static auto make(E const& e, HS const& hs) { return lc::loperator<T, Ids...>(e, hs); }
};

template <typename I, typename T, int... Ids> void acts(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  using HS = typename ST<I>::hs;
  Pool<I> pool(g, 8);
  std::vector<int> algs;
  for(int id : {Ids...})
    algs.push_back(id + 3);
  World6 w = gen_world6(g, algs, int(pool.v.size()), false);
  Layout L(w.sites);
  bool mixed = false;
  Sum s = gen_sum6<T>(g, w, mixed);
  ctx << pool.str() << str(L.sites) << " " << str6(s);
  E e = expr6<I, T>(pool, w, s);
  HS hs = space6<I>(pool, w.sites);
  lc::loperator<T, Ids...> op(e, hs);
  lc::loperator<T, lc::fermion, lc::boson, lc::spin, 0, 7> all(e, hs);

  Vec in;
  lc::sparse_state_vector<T> sv(hs.vec_size());
  for(int i = int(g.range(1, 3)); i > 0; --i) {
    std::vector<int> n;
    for(auto const& x : w.sites)
      n.push_back(int(g.below(x.m.alg == model::B ? 9 : x.dim)));
    T a = Sc<T>::from(gen_scalar<T>(g, true));
    if(in.count(n) || a == T(0)) continue;
    in[n] = as_cplx(a);
    sv[index_of(L, n)] = a;
  }
  Vec want = act(w, s, in);
  auto check = [&](lc::sparse_state_vector<T> const& out, char const* what) {
    std::map<u64, cplx> left;
    foreach(out, [&](lc::sv_index_type n, T const& a) { left[n] = as_cplx(a); });
    for(auto const& p : want) {
      cplx got = left[index_of(L, p.first)];
      MUST(std::abs(got - p.second) <= 1e-7 * (1 + std::abs(p.second)), what, ": amplitude of ", index_of(L, p.first), " is ",
           got, " instead of ", p.second);
      left.erase(index_of(L, p.first));
    }
    for(auto const& p : left)
      MUST(std::abs(p.second) < 1e-7, what, ": unexpected amplitude ", p.second, " of ", p.first);
  };
  check(op(sv), "op(v)");
  check(op * sv, "op * v");
  check(all(sv), "operator of all algebras");
  auto copy = op;
  lc::sparse_state_vector<T> dst(hs.vec_size());
  dst[0] = T(3);
  copy(sv, dst);
  check(dst, "copy(v, dst)");

  // The space the expression needs, made by a functor of the user
  std::set<model::Mode> used;
  for(auto const& t : e)
    for(auto const& x : t.monomial) {
      model::Mode m;
      m.idx = pool.rank(I::index_of(x));
      m.alg = x.algebra_id() >= 0 ? x.algebra_id() + 3 : to_gs<I>(pool, x).alg;
      m.mult = m.alg == model::S ? to_gs<I>(pool, x).mult : 0;
      used.insert(m);
    }
  std::vector<Site> few;
  for(auto const& x : w.sites)
    if(used.count(x.m)) few.push_back(x);
  auto small = lc::make_hilbert_space(e, [&](typename I::gen_t const& x) -> std::unique_ptr<typename ST<I>::es> {
    model::Mode m;
    m.idx = pool.rank(I::index_of(x));
    m.alg = x.algebra_id() >= 0 ? x.algebra_id() + 3 : to_gs<I>(pool, x).alg;
    m.mult = m.alg == model::S ? to_gs<I>(pool, x).mult : 0;
    for(auto const& y : w.sites)
      if(y.m == m) return make_any_space<I>(pool, y);
    throw pbt::Failure("functor called with an unknown generator");
  });
  MUST(small == space6<I>(pool, few), "space made from the expression");
  for(int a : {0, 7}) {
    bool has = false;
    for(auto const& x : few)
      has |= x.m.alg == a + 3;
    MUST(small.has_algebra(a) == has, "has_algebra(", a, ")");
  }
  if(few.size() == w.sites.size()) check((lc::loperator<T, Ids...>(e, small)(sv)), "in the space made from the expression");

  bool nz = false;
  for(auto const& p : want)
    nz |= p.second != cplx(0);
  ctx.nontrivial(nz && mixed);
  ctx.label(pbt::cat(sizeof...(Ids), " algebras"));
}

template <typename I, typename T> void acts_any(pbt::Gen& g, pbt::Ctx& ctx) {
  using namespace libcommute;
  switch(g.below(8)) {
  case 0: acts<I, T, fermion, boson, spin, 0, 7>(g, ctx); break;
  case 1: acts<I, T, 0>(g, ctx); break;
  case 2: acts<I, T, 7>(g, ctx); break;
  case 3: acts<I, T, 0, 7>(g, ctx); break;
  case 4: acts<I, T, fermion, 0>(g, ctx); break;
  case 5: acts<I, T, boson, 7>(g, ctx); break;
  case 6: acts<I, T, spin, 0, 7>(g, ctx); break;
  default: acts<I, T, fermion, spin, 7>(g, ctx);
  }
}

// Whole matrices of dyadic elements, and everything that is built on operators
template <typename I, typename T, int... Ids> void matrix(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  Pool<I> pool(g, 6);
  std::vector<int> algs;
  for(int id : {Ids...})
    algs.push_back(id + 3);
  World6 w = gen_world6(g, algs, int(pool.v.size()), true);
  Layout L(w.sites);
  bool mixed = false;
  Sum s = gen_sum6<T>(g, w, mixed);
  ctx << pool.str() << str(L.sites) << " " << str6(s);
  E e = expr6<I, T>(pool, w, s);
  auto hs = space6<I>(pool, w.sites);
  lc::loperator<T, Ids...> op(e, hs);
  auto states = L.all();
  auto size = std::size_t(hs.vec_size());

  Elements want;
  std::vector<T> v(size, T(0)), x(states.size());
  std::vector<cplx> image(size, 0);
  for(std::size_t k = 0; k < states.size(); ++k) {
    auto d = L.decode(states[k]);
    x[k] = T(int(g.range(-4, 4)));
    v[std::size_t(states[k])] = x[k];
    for(auto const& p : act(w, s, {{{d.begin(), d.end()}, 1}})) {
      if(p.second == cplx(0)) continue;
      want[{index_of(L, p.first), states[k]}] = p.second;
      image[std::size_t(index_of(L, p.first))] += p.second * as_cplx(x[k]);
    }
  }
  auto out = op(v);
  for(std::size_t i = 0; i < size; ++i)
    MUST(as_cplx(out[i]) == image[i], "amplitude ", i, " is ", as_cplx(out[i]), " instead of ", image[i]);
  // Compressed view: valid states are numbered in the order of the leading elementary spaces
  std::vector<T> y(states.size(), T(9));
  {
    std::vector<T> xc(states.size());
    auto probe = lc::make_const_comp_state_view(x, hs);
    std::set<u64> seen;
    for(std::size_t k = 0; k < states.size(); ++k) {
      auto m = probe.map_index(states[k]);
      MUST(m < states.size() && seen.insert(m).second, "compressed index of ", states[k]);
      xc[std::size_t(m)] = x[k];
    }
    auto src = lc::make_const_comp_state_view(xc, hs);
    auto dst = lc::make_comp_state_view(y, hs);
    op(src, dst);
    for(u64 st : states)
      MUST(as_cplx(y[std::size_t(dst.map_index(st))]) == image[std::size_t(st)], "compressed amplitude of ", st);
  }
  // Partition and a basis made of some of the subspaces
  Blocks blocks(states);
  for(auto const& p : want)
    blocks.join(p.first.first, p.first.second);
  lc::matrix_elements_map<T> me;
  auto sp = lc::make_space_partition(op, hs, me);
  auto number = check_partition(sp, states, blocks);
  compare_elements<T>(me, want, "matrix elements");
  MUST(sp.find_connections(op) == connections(number, want), "connections");
  // The terms must not leave the basis even where they cancel each other
  Blocks wide(states);
  for(auto const& t : e) {
    lc::loperator<T, Ids...> one(E(t.coeff, t.monomial), hs);
    for(u64 st : states) {
      lc::sparse_state_vector<T> u(hs.vec_size());
      u[st] = T(1);
      foreach(one(u), [&](lc::sv_index_type n, T const&) { wide.join(n, st); });
    }
  }
  u64 keep = g.below(4);
  std::vector<u64> some;
  for(u64 st : states)
    if(wide.find(st) % 3 != keep) some.push_back(st);
  some = g.shuffled(some);
  lc::basis_mapper mapper(some);
  std::vector<T> a(some.size()), b(some.size(), T(5));
  for(std::size_t k = 0; k < some.size(); ++k)
    a[k] = v[std::size_t(some[k])];
  auto src = mapper.make_const_view(a);
  auto dst = mapper.make_view(b);
  op(src, dst);
  for(std::size_t k = 0; k < some.size(); ++k)
    MUST(as_cplx(b[k]) == image[std::size_t(some[k])], "mapped amplitude of ", some[k]);
  // States reached from the vacuum
  lc::basis_mapper reached(op, hs);
  std::set<u64> from_vac, got;
  for(auto const& p : want)
    if(p.first.second == 0) from_vac.insert(p.first.first);
  for(auto const& p : reached.map())
    got.insert(p.first);
  MUST(got == from_vac, "states made from the vacuum");
  bool nz = false;
  for(auto const& z : image)
    nz |= z != cplx(0);
  ctx.nontrivial(nz && mixed);
  ctx.label_if(hs.is_sparse(), "sparse");
  ctx.label_if(sp.n_subspaces() > 1 && sp.n_subspaces() < states.size(), "several subspaces");
}
template <typename I, typename T> void matrix_any(pbt::Gen& g, pbt::Ctx& ctx) {
  using namespace libcommute;
  switch(g.below(4)) {
  case 0: matrix<I, T, fermion, spin, 0, 7>(g, ctx); break;
  case 1: matrix<I, T, 0, 7>(g, ctx); break;
  case 2: matrix<I, T, fermion, 7>(g, ctx); break;
  default: matrix<I, T, spin, 0>(g, ctx);
  }
}

} // namespace

PROP(acts_real, 150000, 4000000) { acts_any<IdxInt, double>(g, ctx); }
PROP(acts_complex, 100000, 3000000) { acts_any<IdxDyn, cplx>(g, ctx); }
PROP(matrix_real, 40000, 1000000) { matrix_any<IdxStrInt, double>(g, ctx); }
PROP(matrix_complex, 30000, 800000) { matrix_any<IdxInt, cplx>(g, ctx); }
PROP(matrix_integer, 30000, 800000) {
  switch(g.below(3)) {
  case 0: matrix<IdxInt, long, lc::fermion, 0, 7>(g, ctx); break;
  case 1: matrix<IdxInt, long, 0>(g, ctx); break;
  default: matrix<IdxInt, long, lc::fermion, 7>(g, ctx);
  }
}
