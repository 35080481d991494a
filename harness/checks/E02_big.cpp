// Long products of generators of dozens of modes
#include "big.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I, typename T> void long_product(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  auto b = gen_big(g, 60, Sc<T>::rational);
  Pool<I> pool(g, b.n_idx);
  if(int(pool.v.size()) < b.n_idx) throw pbt::Discard();
  Word w = big_word(g, b.w, 60, int(g.weighted({4, 3, 2, 1, 1})));
  if(!unique_form(w)) throw pbt::Discard();
  CQ c = gen_scalar<T>(g, true);
  auto want = word_canon(w, c);
  ctx << pool.str() << " " << c << "." << str(w);
  T x = Sc<T>::from(c);
  E e;
  auto way = g.below(5);
  switch(way) {
  case 0: { // One monomial
    std::vector<std::shared_ptr<const typename I::gen_t>> v;
    for(auto const& y : w)
      v.push_back(make_gen<I>(pool, y));
    e = E(x, typename E::monomial_t(v));
    break;
  }
  case 1:
    e = E(x);
    for(auto const& y : w)
      e *= gen_expr<I, T>(pool, y);
    break;
  case 2: // from the right
    e = E(x);
    for(auto it = w.rbegin(); it != w.rend(); ++it)
      e = gen_expr<I, T>(pool, *it) * e;
    break;
  case 3: { // two halves
    auto k = std::size_t(g.below(w.size() + 1));
    e = word_expr<I, T>(pool, Word(w.begin(), w.begin() + long(k)), CQ(1)) *
        word_expr<I, T>(pool, Word(w.begin() + long(k), w.end()), CQ(1)) * x;
    break;
  }
  default: {
    std::vector<E> v;
    for(auto const& y : w)
      v.push_back(gen_expr<I, T>(pool, y));
    while(v.size() > 1) {
      std::vector<E> u;
      for(std::size_t i = 0; i + 1 < v.size(); i += 2)
        u.push_back(v[i] * v[i + 1]);
      if(v.size() % 2) u.push_back(v.back());
      v = u;
    }
    e = x * v[0];
  }
  }
  must_be<I, T>(pool, e, want, "the product");
  for(auto const& t : e)
    MUST(t.monomial.is_ordered(), "not in the canonical order");
  // Adding the canonical form itself adds nothing new
  for(auto const& t : e) {
    E y(t.coeff, t.monomial);
    MUST(y.size() == 1 && y.begin()->monomial == t.monomial && y.begin()->coeff == t.coeff, "canonical monomial changed");
  }
  ctx.nontrivial(w.size() > 12);
  ctx.label_if(w.size() > 32, "more than 32 generators");
  ctx.label_if(want.size() > 1, "contractions");
}

} // namespace

PROP(long_product_rational, 6000, 180000) { long_product<IdxInt, mpq_class>(g, ctx); }
PROP(long_product_real, 6000, 180000) { long_product<IdxStrInt, double>(g, ctx); }
PROP(long_product_integer, 6000, 180000) { long_product<IdxInt, long>(g, ctx); }
PROP(long_product_complex, 4000, 120000) { long_product<IdxDyn, std::complex<double>>(g, ctx); }
