// Arithmetic of expressions with hundreds of terms
#include "big.hpp"
using namespace bridge;
using namespace model;

namespace {

bool small(Canon const& m) {
  for(auto const& p : m)
    if(abs(p.second.re) > 1000000 || abs(p.second.im) > 1000000 || p.second.re.get_den() > 4096 || p.second.im.get_den() > 4096)
      return false;
  return true;
}

template <typename I, typename T> void big_history(pbt::Gen& g, pbt::Ctx& ctx) {
  using E = typename I::template expr<T>;
  auto b = gen_big(g, 40, false);
  for(auto& p : b.w.protos) // Powers of spins are limited; see below_truncation()
    if(p.alg == S) p.alg = g.flip() ? F : B, p.mult = 0;
  Pool<I> pool(g, b.n_idx);
  if(int(pool.v.size()) < b.n_idx) throw pbt::Discard();
  E e[3];
  Canon m[3];
  int steps = int(g.range(2, 12));
  std::size_t most = 0;
  for(int k = 0; k < steps; ++k) {
    auto i = std::size_t(g.below(3)), j = std::size_t(g.below(3)), d = std::size_t(g.below(3));
    auto op = g.weighted({6, 3, 3, 2, 2, 1, 1, 1, 2, 1, 1, 1});
    if(k == 0) op = 0;
    switch(op) {
    case 0: {
      auto s = big_sum<T>(g, b.w, int(g.boundary(20, 600)), int(g.range(1, 4)));
      ctx << " e" << i << "=sum of " << s.size() << ";";
      e[i] = sum_expr<I, T>(pool, s);
      m[i] = sum_canon<T>(s);
      break;
    }
    case 1:
      ctx << " e" << d << "=e" << i << "+e" << j << ";";
      e[d] = e[i] + e[j];
      m[d] = add(m[i], m[j]);
      break;
    case 2:
      ctx << " e" << d << "=e" << i << "-e" << j << ";";
      e[d] = e[i] - e[j];
      m[d] = add(m[i], m[j], CQ(-1));
      break;
    case 3: {
      ctx << " e" << i << "+=e" << j << ";";
      e[i] += e[j];
      m[i] = add(m[i], Canon(m[j]));
      break;
    }
    case 4:
      ctx << " e" << i << "-=e" << j << ";";
      e[i] -= e[j];
      m[i] = add(m[i], Canon(m[j]), CQ(-1));
      break;
    case 5:
      ctx << " e" << d << "=-e" << i << ";";
      e[d] = -e[i];
      m[d] = scale(m[i], CQ(-1));
      break;
    case 6: {
      CQ c = gen_scalar<T>(g);
      ctx << " e" << d << "=" << c << "*e" << i << ";";
      T x = Sc<T>::from(c);
      switch(g.below(3)) {
      case 0: e[d] = x * e[i]; break;
      case 1: e[d] = e[i] * x; break;
      default: {
        E t = e[i];
        t *= x;
        e[d] = std::move(t);
      }
      }
      m[d] = scale(m[i], c);
      break;
    }
    case 7: {
      CQ c = gen_scalar<T>(g);
      ctx << " e" << d << "=e" << i << "+" << c << ";";
      T x = Sc<T>::from(c);
      switch(g.below(3)) {
      case 0: e[d] = x + e[i]; break;
      case 1: e[d] = e[i] + x; break;
      default: e[d] = e[i] - T(-x);
      }
      m[d] = add(m[i], {{Word{}, CQ(1)}}, c);
      break;
    }
    case 8: { // by a short one
      if(m[i].size() > 700) break;
      auto s = big_sum<T>(g, b.w, int(g.range(1, 4)), 2);
      auto c = sum_canon<T>(s);
      auto y = sum_expr<I, T>(pool, s);
      ctx << " e" << d << "=e" << i << "*" << str(c) << ";";
      switch(g.below(3)) {
      case 0:
        e[d] = e[i] * y;
        m[d] = mul(m[i], c);
        break;
      case 1:
        e[d] = y * e[i];
        m[d] = mul(c, m[i]);
        break;
      default: {
        E t = e[i];
        t *= y;
        e[d] = t;
        m[d] = mul(m[i], c);
      }
      }
      break;
    }
    case 9: { // of two
      auto s = big_sum<T>(g, b.w, int(g.range(10, 30)), 2), t = big_sum<T>(g, b.w, int(g.range(10, 30)), 2);
      ctx << " e" << d << "=sum of " << s.size() << " * sum of " << t.size() << ";";
      e[d] = sum_expr<I, T>(pool, s) * sum_expr<I, T>(pool, t);
      m[d] = mul(sum_canon<T>(s), sum_canon<T>(t));
      break;
    }
    case 10: { // commutator of a big one and a generator
      if(m[i].size() > 700) break;
      GS x = gen_gs(g, b.w);
      ctx << " e" << d << "=[e" << i << "," << x.str() << "];";
      auto y = gen_expr<I, T>(pool, x);
      E t = e[i] * y - y * e[i];
      m[d] = add(mul(m[i], {{Word{x}, CQ(1)}}), mul({{Word{x}, CQ(1)}}, m[i]), CQ(-1));
      e[d] = t;
      break;
    }
    default: {
      ctx << " copies;";
      E c(e[i]);
      MUST(c == e[i] && !(c != e[i]), "equality with a copy");
      if(!m[i].empty()) {
        // Different in one place only
        auto it = std::next(m[i].begin(), long(g.below(m[i].size())));
        c += word_expr<I, T>(pool, it->first, CQ(1));
        MUST(c != e[i] && !(c == e[i]), "equality with something else");
        c -= word_expr<I, T>(pool, it->first, CQ(1));
        MUST(c == e[i], "difference taken back");
      }
      e[d] = std::move(c);
      m[d] = Canon(m[i]);
    }
    }
    for(std::size_t x = 0; x < 3; ++x) {
      must_be<I, T>(pool, e[x], m[x], pbt::cat("e", x));
      most = std::max(most, m[x].size());
      if(!small(m[x])) {
        e[x].clear();
        m[x].clear();
      }
    }
    MUST((e[0] == e[1]) == (m[0] == m[1]), "equality");
  }
  ctx.nontrivial(most > 60);
  ctx.label_if(most > 256, "more than 256 terms");
  ctx.label_if(most > 1024, "more than 1024 terms");
}

} // namespace

PROP(big_integers, 400, 12000) { big_history<IdxInt, long>(g, ctx); }
PROP(big_reals, 400, 12000) { big_history<IdxStrInt, double>(g, ctx); }
PROP(big_complex, 300, 9000) { big_history<IdxInt, std::complex<double>>(g, ctx); }
PROP(big_rationals, 200, 6000) { big_history<IdxDyn, mpq_class>(g, ctx); }
