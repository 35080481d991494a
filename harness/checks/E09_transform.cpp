// PBT rule: histories over real, complex and rational expressions (copies, moves, swaps, conversions and assignments between scalar types, clearing, coefficient functions of many kinds including ones that vanish on part of the terms, self-assignment), mirrored by plain term lists, with complete forward and backward enumerations after each step; non-trivial = an expression of two or more terms was converted or transformed
#include "lib.hpp"
using namespace bridge;

namespace {

using I = IdxStrInt;
using ER = lc::expression<double, std::string, int>;
using EC = lc::expression<std::complex<double>, std::string, int>;
using EQ_ = lc::expression<mpq_class, std::string, int>;
using EL = lc::expression<long, std::string, int>;
using mono = lc::monomial<std::string, int>;
using cplx = std::complex<double>;

template <typename E> struct ScalarOf;
template <typename S> struct ScalarOf<lc::expression<S, std::string, int>> {
  using type = S;
};

struct State {
  Pool<I> pool;
  model::World w;
  ER r[2];
  EC c[2];
  EQ_ q[2];
  EL l[2];
  model::Canon mr[2], mc[2], mq[2], ml[2];
};

template <typename E> void look(pbt::Gen& g, State const& s, E const& e, model::Canon const& m, char const* what) {
  using S = typename ScalarOf<E>::type;
  std::vector<std::pair<model::Word, CQ>> want(m.begin(), m.end());
  auto got = terms<I, S>(s.pool, e);
  MUST(got == want, what, " is ", model::str(canon_of(got)), " instead of ", model::str(m));
  MUST(e.size() == want.size() && e.get_monomials().size() == want.size(), "size of ", what);
  auto word = [&](mono const& x) {
    model::Word w;
    for(auto const& y : x)
      w.push_back(to_gs<I>(s.pool, y));
    return w;
  };
  auto n = want.size();
  // Backwards, with all kinds of steps
  auto it = e.end();
  for(std::size_t k = n; k-- > 0;) {
    auto old = it;
    if(g.flip()) {
      MUST(it-- == old, "post-decrement");
    } else
      MUST(--it != old, "pre-decrement");
    MUST(word((*it).monomial) == want[k].first && Sc<S>::to(it->coeff) == want[k].second, "term ", k, " from the end");
  }
  MUST(it == e.begin() && it == e.cbegin() && e.end() == e.cend(), "begin");
  MUST((e.begin() == e.end()) == (n == 0), "empty range");
  std::size_t k = 0;
  for(; it != e.cend(); ++k) {
    MUST(word(it->monomial) == want[k].first && Sc<S>::to((*it).coeff) == want[k].second, "term ", k);
    // The references stay those of the expression
    MUST(&it->monomial == &std::next(e.get_monomials().begin(), long(k))->first, "monomial by reference");
    auto old = it;
    if(g.flip()) {
      MUST(it++ == old, "post-increment");
    } else
      MUST(++it != old, "pre-increment");
    if(g.chance(1, 4)) {
      auto a = old, b = it;
      swap(a, b);
      MUST(a == it && b == old, "swap of iterators");
    }
  }
  MUST(k == n, "number of terms");
}
void look_all(pbt::Gen& g, State const& s) {
  for(int i = 0; i < 2; ++i) {
    look(g, s, s.r[i], s.mr[i], "a real expression");
    look(g, s, s.c[i], s.mc[i], "a complex expression");
    look(g, s, s.q[i], s.mq[i], "a rational expression");
    look(g, s, s.l[i], s.ml[i], "an integer expression");
  }
}

// A coefficient function given by its number: value from the position, length and coefficient
template <typename S> S fun(int kind, mono const& m, S const& c) {
  switch(kind) {
  case 0: return c;
  case 1: return S(0);
  case 2: return c + c;
  case 3: return c * c;
  case 4: return m.size() % 2 ? c : S(0);
  case 5: return S(double(m.size()));
  case 6: return c - S(1);
  case 7: return m.is_ordered() && !m.empty() && m[0].algebra_id() == lc::fermion ? -c : c;
  default: return S(1);
  }
}
// The same on the reference
CQ fun_ref(int kind, model::Word const& m, CQ const& c) {
  switch(kind) {
  case 0: return c;
  case 1: return CQ(0);
  case 2: return c + c;
  case 3: return c * c;
  case 4: return m.size() % 2 ? c : CQ(0);
  case 5: return CQ(long(m.size()));
  case 6: return c - CQ(1);
  case 7: return !m.empty() && m[0].alg == model::F ? -c : c;
  default: return CQ(1);
  }
}
model::Canon map_ref(model::Canon const& m, std::function<CQ(model::Word const&, CQ const&)> const& f) {
  model::Canon r;
  for(auto const& p : m)
    model::add_to(r, p.first, f(p.first, p.second));
  return r;
}

// A function object with state that may only be called as an lvalue of its own type
template <typename S> struct Counter {
  int n = 0;
  std::vector<S>* seen;
  S operator()(mono const& m, S const& c) {
    seen->push_back(c);
    return ++n % 3 == 0 ? S(0) : fun(2, m, c);
  }
};

template <typename E>
void transform_same(pbt::Gen& g, pbt::Ctx& ctx, E (&v)[2], model::Canon (&mv)[2], char const* what) {
  using S = typename ScalarOf<E>::type;
  int i = int(g.below(2)), j = int(g.below(2)), kind = int(g.below(9));
  auto way = g.below(4);
  ctx << " " << what << j << "=transform" << way << "(" << what << i << "," << kind << ");";
  ctx.nontrivial(mv[i].size() > 1);
  if(way == 3) {
    std::vector<S> seen;
    int n = 0;
    v[j] = transform(v[i], Counter<S>{0, &seen});
    MUST(seen.size() == mv[i].size(), "number of calls");
    std::size_t k = 0;
    for(auto const& p : mv[i])
      MUST(Sc<S>::to(seen[k++]) == p.second, "order of calls");
    mv[j] = map_ref(mv[i], [&](model::Word const& m, CQ const& c) { return ++n % 3 == 0 ? CQ(0) : fun_ref(2, m, c); });
    return;
  }
  auto f = [kind](mono const& m, S const& c) -> S { return fun<S>(kind, m, c); };
  if(way == 0)
    v[j] = transform(v[i], f);
  else if(way == 1)
    v[j] = transform(v[i], [kind](mono const& m, S const& c) -> S { return fun<S>(kind, m, c); });
  else {
    S (*fp)(mono const&, S const&) = [](mono const& m, S const& c) -> S { return fun<S>(3, m, c); };
    kind = 3;
    v[j] = transform(v[i], fp);
  }
  mv[j] = map_ref(mv[i], [&](model::Word const& m, CQ const& c) { return fun_ref(kind, m, c); });
}

bool integral(model::Canon const& m) {
  for(auto const& p : m)
    if(sgn(p.second.im) || p.second.re.get_den() != 1) return false;
  return true;
}
bool small(model::Canon const& m) {
  for(auto const& p : m) {
    if(abs(p.second.re) > 100000 || abs(p.second.im) > 100000) return false;
    if(p.second.re.get_den() > 1024 || p.second.im.get_den() > 1024) return false;
  }
  return true;
}

template <typename E>
void own(pbt::Gen& g, pbt::Ctx& ctx, State& s, E (&v)[2], model::Canon (&mv)[2], char const* what) {
  using S = typename ScalarOf<E>::type;
  int i = int(g.below(2)), j = 1 - i;
  switch(g.weighted({6, 1, 1, 1, 1, 2, 3, 1, 1})) {
  case 0: {
    auto t = gen_tree<S>(g, s.w, 5, 8, 4);
    ctx << " " << what << i << "=" << str(*t) << ";";
    v[i] = eval_lib<I, S>(s.pool, *t);
    mv[i] = canon_of<I, S>(s.pool, v[i]);
    break;
  }
  case 1:
    ctx << " " << what << i << "=" << what << j << ";";
    v[i] = v[j];
    mv[i] = mv[j];
    break;
  case 2:
    ctx << " " << what << i << "=move(" << what << j << ");";
    v[i] = std::move(v[j]);
    mv[i] = mv[j];
    v[j].clear();
    mv[j].clear();
    break;
  case 3:
    ctx << " swap(" << what << ");";
    std::swap(v[0], v[1]);
    std::swap(mv[0], mv[1]);
    break;
  case 4: {
    E const& self = v[i];
    v[i] = self;
    break;
  }
  case 5: {
    ctx << " " << what << i << "=coeff.monomial;";
    // Constant and one-term expressions
    CQ x = gen_scalar<S>(g);
    if(g.flip()) {
      v[i] = E(Sc<S>::from(x));
      mv[i] = model::scale({{model::Word{}, CQ(1)}}, x);
    } else {
      GS y = gen_gs(g, s.w);
      v[i] = E(Sc<S>::from(x), mono({make_gen<I>(s.pool, y)}));
      mv[i] = model::scale({{model::Word{y}, CQ(1)}}, x);
    }
    break;
  }
  case 6:
    if(small(mv[0]) && small(mv[1])) transform_same(g, ctx, v, mv, what);
    break;
  case 7:
    ctx << " clear " << what << i << ";";
    v[i].clear();
    mv[i].clear();
    break;
  default: {
    E a(v[i]), b(std::move(a));
    MUST(b == v[i] && !(b != v[i]), "copies are equal");
    MUST((v[0] == v[1]) == (mv[0] == mv[1]) && (v[0] != v[1]) == (mv[0] != mv[1]), "equality");
    v[j] = std::move(b);
    mv[j] = mv[i];
  }
  }
}

void run_history(pbt::Gen& g, pbt::Ctx& ctx, int max) {
  State s;
  s.w = model::gen_world(g, {true, true, false, 4, 4, 3});
  s.pool = Pool<I>(g, s.w.n_idx);
  if(int(s.pool.v.size()) < s.w.n_idx) throw pbt::Discard();
  int n = g.len(3, max);
  for(int k = 0; k < n; ++k) {
    int i = int(g.below(2)), j = int(g.below(2));
    switch(g.weighted({4, 4, 4, 3, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: own(g, ctx, s, s.r, s.mr, "r"); break;
    case 1: own(g, ctx, s, s.c, s.mc, "c"); break;
    case 2: own(g, ctx, s, s.q, s.mq, "q"); break;
    case 3: own(g, ctx, s, s.l, s.ml, "l"); break;
    case 4:
      ctx << " c" << i << "=r" << j << ";";
      if(g.flip())
        s.c[i] = s.r[j];
      else
        s.c[i] = EC(s.r[j]);
      s.mc[i] = s.mr[j];
      ctx.nontrivial(s.mr[j].size() > 1);
      break;
    case 5:
      ctx << " r" << i << "=l" << j << ";";
      if(g.flip())
        s.r[i] = s.l[j];
      else
        s.r[i] = ER(s.l[j]);
      s.mr[i] = s.ml[j];
      break;
    case 6:
      ctx << " q" << i << "=l" << j << ";";
      if(g.flip())
        s.q[i] = s.l[j];
      else {
        EQ_ t = s.l[j];
        s.q[i] = t;
      }
      s.mq[i] = s.ml[j];
      break;
    case 7:
      ctx << " q" << i << "=r" << j << ";";
      s.q[i] = s.r[j];
      s.mq[i] = s.mr[j];
      ctx.nontrivial(s.mr[j].size() > 1);
      break;
    case 8:
      if(!integral(s.mr[j])) break;
      ctx << " l" << i << "=r" << j << ";";
      if(g.flip())
        s.l[i] = s.r[j];
      else
        s.l[i] = EL(s.r[j]);
      s.ml[i] = s.mr[j];
      break;
    case 9: { // real part and modulus
      bool im = g.flip();
      ctx << " r" << i << "=" << (im ? "imag" : "real") << "(c" << j << ");";
      s.r[i] = transform(s.c[j], [&](mono const&, cplx const& x) { return im ? x.imag() : x.real(); });
      s.mr[i] = map_ref(s.mc[j], [&](model::Word const&, CQ const& x) { return CQ(im ? x.im : x.re); });
      ctx.nontrivial(s.mc[j].size() > 1);
      break;
    }
    case 10: { // numerators
      bool big = false;
      for(auto const& p : s.mq[j])
        big |= abs(p.second.re.get_num()) > 1000000;
      if(big) break;
      ctx << " l" << i << "=numerator(q" << j << ");";
      s.l[i] = transform(s.q[j], [](mono const&, mpq_class const& x) { return x.get_num().get_si(); });
      s.ml[i] = map_ref(s.mq[j], [](model::Word const&, CQ const& x) { return CQ(Q(x.re.get_num())); });
      ctx.nontrivial(s.mq[j].size() > 1);
      break;
    }
    default: { // lengths of monomials
      ctx << " l" << i << "=lengths(c" << j << ");";
      s.l[i] = transform(s.c[j], [](mono const& m, cplx const&) { return m.size(); });
      s.ml[i] = map_ref(s.mc[j], [](model::Word const& m, CQ const&) { return CQ(long(m.size())); });
      ctx.nontrivial(s.mc[j].size() > 1);
    }
    }
    look_all(g, s);
  }
}

} // namespace

PROP(history, 320000, 6400000) { run_history(g, ctx, 14); }
PROP(long_history, 64000, 1280000) { run_history(g, ctx, 60); }

// Values at the boundary of the zero tolerance
PROP(tolerance, 480000, 9600000) {
  auto w = model::gen_world(g, {true, true, false, 3, 4, 3});
  Pool<I> pool(g, w.n_idx);
  if(int(pool.v.size()) < w.n_idx) throw pbt::Discard();
  ER e;
  int n = int(g.range(1, 4));
  for(int i = 0; i < n; ++i) {
    ER x(1.0);
    int m = g.len(0, 4);
    for(int k = 0; k < m; ++k)
      x *= gen_expr<I, double>(pool, gen_gs(g, w));
    e += double(g.range(1, 5)) * x;
  }
  static const std::vector<double> vals = {0,     -0.0,   1e-300, 2e-14, -2e-14, 2.3e-14,
                                           -3e-14, 1e-12, 1,      -5,    1e300,  2.22e-14};
  double const eps = 100 * std::numeric_limits<double>::epsilon();
  std::vector<double> out;
  auto f = transform(e, [&](mono const&, double const&) {
    out.push_back(g.pick(vals));
    return out.back();
  });
  MUST(out.size() == e.size(), "number of calls");
  std::vector<std::pair<model::Word, CQ>> want, in = terms<I, double>(pool, e);
  for(std::size_t i = 0; i < in.size(); ++i) {
    ctx << " " << out[i];
    if(!(std::abs(out[i]) < eps)) want.emplace_back(in[i].first, Sc<double>::to(out[i]));
  }
  MUST((terms<I, double>(pool, f) == want), "terms of the transformed expression");
  // Complex values vanish if both parts do
  auto h = transform(e, [&](mono const& m, double const&) {
    return cplx(out[m.size() % out.size()], out[(m.size() + 1) % out.size()]);
  });
  want.clear();
  for(auto const& t : in) {
    double a = out[t.first.size() % out.size()], b = out[(t.first.size() + 1) % out.size()];
    if(!(std::abs(a) < eps && std::abs(b) < eps)) want.emplace_back(t.first, CQ(Q(a), Q(b)));
  }
  MUST((terms<I, cplx>(pool, h) == want), "terms of the complex expression");
  ctx.nontrivial(f.size() > 0 && f.size() < e.size());
}
