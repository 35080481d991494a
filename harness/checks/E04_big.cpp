// Conjugation of long products and of sums of hundreds of terms
#include "big.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I, typename T> void big_conj(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  bool many = g.flip();
  auto b = gen_big(g, 50, Sc<T>::rational);
  Pool<I> pool(g, b.n_idx);
  if(int(pool.v.size()) < b.n_idx) throw pbt::Discard();
  WordSum<T> s;
  if(many)
    s = big_sum<T>(g, b.w, int(g.boundary(20, 300)), 3);
  else {
    int n = int(g.range(1, 3));
    for(int i = 0; i < n; ++i) {
      auto w = big_word(g, b.w, 50, int(g.below(3)));
      if(unique_form(w)) s.push_back({gen_scalar<T>(g, true), w});
    }
  }
  for(auto const& t : s)
    ctx << " + " << t.first << "." << str(t.second);
  E e = sum_expr<I, T>(pool, s), e0 = e;
  auto m = sum_canon<T>(s);
  must_be<I, T>(pool, e, m, "the expression");
  E c = conj(e);
  MUST(e == e0, "argument changed");
  auto want = adjoint(m);
  must_be<I, T>(pool, c, want, "the conjugate");
  MUST(conj(c) == e, "conjugated twice");
  must_be<I, T>(pool, e + lc::hc, add(m, want), "e + hc");
  must_be<I, T>(pool, e - lc::hc, add(m, want, CQ(-1)), "e - hc");
  ctx.nontrivial(m.size() > 20 || (!s.empty() && s[0].second.size() > 10));
  ctx.label_if(m.size() > 64, "more than 64 terms");
}

} // namespace

PROP(big_conj_rational, 2000, 60000) { big_conj<IdxInt, mpq_class>(g, ctx); }
PROP(big_conj_real, 2000, 60000) { big_conj<IdxStrInt, double>(g, ctx); }
PROP(big_conj_complex, 2000, 60000) { big_conj<IdxInt, std::complex<double>>(g, ctx); }
PROP(big_conj_dyn, 1200, 36000) { big_conj<IdxDyn, std::complex<double>>(g, ctx); }
