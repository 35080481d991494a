// Transformation, conversion and enumeration of expressions with hundreds of terms
#include "big.hpp"
using namespace bridge;
using namespace model;

namespace {

using cplx = std::complex<double>;

template <typename I> void big_transform(pbt::Gen& g, pbt::Ctx& ctx) {
  using ER = typename I::template expr<double>;
  using EC = typename I::template expr<cplx>;
  using EQ_ = typename I::template expr<mpq_class>;
  using mono = typename ER::monomial_t;
  auto b = gen_big(g, 30, true);
  Pool<I> pool(g, b.n_idx);
  if(int(pool.v.size()) < b.n_idx) throw pbt::Discard();
  auto s = big_sum<cplx>(g, b.w, int(g.boundary(20, 800)), 3);
  auto m = sum_canon<cplx>(s);
  EC c = sum_expr<I, cplx>(pool, s);
  ctx << m.size() << " terms";
  must_be<I, cplx>(pool, c, m, "the expression");
  auto map = [&](auto const& f) {
    Canon r;
    std::size_t k = 0;
    for(auto const& p : m)
      add_to(r, p.first, f(k++, p.first, p.second));
    return r;
  };
  bool im = g.flip();
  ER r = transform(c, [&](mono const&, cplx const& x) { return im ? x.imag() : x.real(); });
  must_be<I, double>(pool, r, map([&](std::size_t, Word const&, CQ const& x) { return CQ(im ? x.im : x.re); }), "a part");
  // Terms by position, most or few of them dropped
  std::size_t keep = std::size_t(g.urange(1, 40)), at = std::size_t(g.below(m.size() + 1)), n = 0;
  bool drop = g.flip();
  auto kept = [&](std::size_t k) { return (k % keep == 0) != drop || k == at; };
  EC d = transform(c, [&](mono const&, cplx const& x) { return kept(n++) ? x + x : cplx(0); });
  MUST(n == m.size(), n, " calls for ", m.size(), " terms");
  must_be<I, cplx>(pool, d, map([&](std::size_t k, Word const&, CQ const& x) { return kept(k) ? x + x : CQ(0); }), "some terms");
  // By monomial
  EC l = transform(c, [&](mono const& x, cplx const&) { return cplx(double(x.size()), 1); });
  must_be<I, cplx>(pool, l, map([&](std::size_t, Word const& w, CQ const&) { return CQ(Q(long(w.size())), Q(1)); }), "lengths");
  // Conversions
  auto mr = canon_of<I, double>(pool, r);
  EC rc = r;
  must_be<I, cplx>(pool, rc, mr, "real to complex");
  EQ_ rq(r);
  must_be<I, mpq_class>(pool, rq, mr, "real to rational");
  EQ_ q;
  q = r;
  MUST(q == rq, "assigned from a real expression");
  EC t(c);
  t = r;
  MUST(t == rc && (c == rc) == (m == mr), "assigned over another one");
  EC moved(std::move(t));
  must_be<I, cplx>(pool, moved, mr, "moved");
  // Enumeration in both directions
  auto it = c.end();
  std::size_t k = m.size();
  for(auto p = m.rbegin(); p != m.rend(); ++p, --k) {
    --it;
    MUST(Sc<cplx>::to(it->coeff) == p->second && it->monomial.size() == p->first.size(), "term ", k, " from behind");
  }
  MUST(it == c.begin(), "begin");
  std::size_t fwd = 0;
  for(auto const& x : c) {
    (void)x;
    ++fwd;
  }
  MUST(fwd == m.size() && std::size_t(std::distance(c.begin(), c.end())) == m.size() && c.get_monomials().size() == m.size(), "number of terms");
  c.clear();
  MUST(c.size() == 0 && c.begin() == c.end() && c == EC(), "cleared");
  ctx.nontrivial(m.size() > 30);
  ctx.label_if(m.size() > 256, "more than 256 terms");
}

} // namespace

PROP(big_transform_int, 2000, 60000) { big_transform<IdxInt>(g, ctx); }
PROP(big_transform_dyn, 1000, 30000) { big_transform<IdxDyn>(g, ctx); }
