// PBT rule: random expression trees and words with exactly predicted canonical form, rebuilt in other ways; non-trivial = the canonical form has at least two monomials or a monomial of two or more generators
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I, typename T> struct Case {
  World w;
  Pool<I> pool;
};

template <typename I, typename T> Case<I, T> gen_case(pbt::Gen& g, int max_modes = 5) {
  WorldOpts o;
  o.max_modes = max_modes;
  World w = gen_world(g, o);
  if(!Sc<T>::rational)
    for(auto& p : w.protos)
      if(p.alg == S && p.mult == 2) p.mult = 3;
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  return {w, pool};
}

// Structural invariants of a stored expression
template <typename I, typename T>
void check_form(Pool<I> const& pool, typename I::template expr<T> const& e) {
  auto ts = terms<I, T>(pool, e);
  MUST(ts.size() == e.size(), "size() is ", e.size());
  for(std::size_t i = 0; i < ts.size(); ++i) {
    auto const& w = ts[i].first;
    MUST(!ts[i].second.zero(), "zero coefficient stored in ", e);
    if(i) MUST(WordLess()(ts[i - 1].first, w), "monomials out of order in ", e);
    for(std::size_t k = 0; k + 1 < w.size(); ++k) {
      MUST(!(w[k + 1] < w[k]), "generators out of order in ", e);
      MUST(!(w[k] == w[k + 1] && w[k].alg == F), "squared fermion in ", e);
      MUST(!(w[k].same_mode(w[k + 1]) && w[k].alg == S && w[k].mult == 2),
           "reducible spin-1/2 product in ", e);
    }
    int run = 1;
    for(std::size_t k = 1; k < w.size(); ++k) {
      run = w[k] == w[k - 1] ? run + 1 : 1;
      MUST(!(run > 2 && w[k].alg == S && w[k].comp != Z && run >= w[k].mult),
           "vanishing power of a ladder operator in ", e);
    }
  }
}

// An equivalent tree: rewrites random nodes with identities of an associative algebra and of
// the (anti)commutation relations
NodeP mk(Node::Kind k, NodeP l, NodeP r, int form = 0) {
  auto n = std::make_shared<Node>();
  n->kind = k;
  n->l = l;
  n->r = r;
  n->form = form;
  return n;
}
NodeP cst(CQ v) {
  auto n = std::make_shared<Node>();
  n->kind = Node::Const;
  n->val = v;
  return n;
}
NodeP gn(GS s) {
  auto n = std::make_shared<Node>();
  n->kind = Node::Gen;
  n->gs = s;
  return n;
}
template <typename T> NodeP rewrite(pbt::Gen& g, NodeP const& n, int depth) {
  if(depth > 12) return n;
  auto c = std::make_shared<Node>(*n);
  if(n->l) c->l = rewrite<T>(g, n->l, depth + 1);
  if(n->r) c->r = rewrite<T>(g, n->r, depth + 1);
  c->form = int(g.below(2));
  switch(n->kind) {
  case Node::Add:
    if(g.flip()) std::swap(c->l, c->r);
    break;
  case Node::Sub:
    if(g.flip()) {
      auto m = std::make_shared<Node>();
      m->kind = Node::Neg;
      m->l = c->r;
      return mk(Node::Add, m, c->l, c->form);
    }
    break;
  case Node::Mul: {
    bool lsum = c->l->kind == Node::Add || c->l->kind == Node::Sub;
    bool rsum = c->r->kind == Node::Add || c->r->kind == Node::Sub;
    if(lsum && g.flip()) // distribute
      return mk(c->l->kind, mk(Node::Mul, c->l->l, c->r), mk(Node::Mul, c->l->r, c->r), c->form);
    if(rsum && g.flip())
      return mk(c->r->kind, mk(Node::Mul, c->l, c->r->l), mk(Node::Mul, c->l, c->r->r), c->form);
    if(c->l->kind == Node::Mul && g.flip()) // (ab)c -> a(bc)
      return mk(Node::Mul, c->l->l, mk(Node::Mul, c->l->r, c->r), c->form);
    if(c->r->kind == Node::Mul && g.flip())
      return mk(Node::Mul, mk(Node::Mul, c->l, c->r->l), c->r->r, c->form);
    if(c->l->kind == Node::Gen && c->r->kind == Node::Gen && g.flip()) {
      // xy = +-yx + [x,y}
      GS x = c->l->gs, y = c->r->gs;
      if(x.alg == S && x.mult == 2 && x.same_mode(y)) return c;
      CQ sign = (x.alg == F && y.alg == F) ? CQ(-1) : CQ(1);
      NodeP yx = mk(Node::Mul, gn(y), gn(x));
      if(sign != CQ(1)) {
        auto m = std::make_shared<Node>();
        m->kind = Node::Neg;
        m->l = yx;
        yx = m;
      }
      if(!x.same_mode(y) || x.comp == y.comp) {
        return yx;
      }
      if(x.alg == F) return mk(Node::Add, yx, cst(CQ(1)));
      if(x.alg == B) return mk(x.comp == 0 ? Node::Add : Node::Sub, yx, cst(CQ(1)));
      // su(2)
      auto comm = [&](int a, int b) -> std::pair<long, int> {
        if(a == P && b == M) return {2, Z};
        if(a == M && b == P) return {-2, Z};
        if(a == Z && b == P) return {1, P};
        if(a == P && b == Z) return {-1, P};
        if(a == Z && b == M) return {-1, M};
        return {1, M}; // M, Z
      };
      auto r = comm(x.comp, y.comp);
      GS z = x;
      z.comp = r.second;
      auto s = std::make_shared<Node>();
      s->kind = Node::ScaleL;
      s->val = CQ(r.first);
      s->l = gn(z);
      return mk(Node::Add, yx, s, c->form);
    }
    break;
  }
  case Node::ScaleL:
  case Node::ScaleR:
    if(g.flip()) return mk(Node::Mul, cst(n->val), c->l, c->form);
    if(g.flip()) return mk(Node::Mul, c->l, cst(n->val), c->form);
    break;
  case Node::AddC:
    if(g.flip()) return mk(Node::Add, cst(n->val), c->l, c->form);
    break;
  case Node::CSub:
    if(g.flip()) return mk(Node::Sub, cst(n->val), c->l, c->form);
    break;
  case Node::Neg:
    if(g.flip()) return mk(Node::Sub, cst(CQ(0)), c->l, c->form);
    break;
  default: break;
  }
  return c;
}

template <typename I, typename T> void tree_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto cs = gen_case<I, T>(g);
  int maxdeg = 1 + g.size() * 6 / 100;
  NodeP t = gen_tree<T>(g, cs.w, maxdeg, 24, 5);
  ctx << "indices " << cs.pool.str() << " tree " << str(*t);
  auto e = eval_lib<I, T>(cs.pool, *t);
  ctx << " -> " << e;
  check_form<I, T>(cs.pool, e);
  if(!below_truncation(*t)) {
    ctx.label("not below the truncation degree");
    return;
  }
  Canon expected = eval_canon(*t);
  Canon got = canon_of<I, T>(cs.pool, e);
  MUST(got == expected, "expected ", str(expected), " got ", str(got));
  bool longer = false;
  for(auto const& p : expected)
    longer |= p.first.size() > 1;
  ctx.nontrivial(longer || expected.size() > 1);
  ctx.label_if(expected.empty(), "zero");
  ctx.label(pbt::cat("monomials ", std::min<std::size_t>(expected.size(), 6)));

  // Built differently
  NodeP t2 = rewrite<T>(g, t, 0);
  auto e2 = eval_lib<I, T>(cs.pool, *t2);
  MUST(e == e2 && !(e != e2), "rewritten as ", str(*t2), " -> ", e2);
  // From its terms, in any order, each written with its factors in the canonical order
  using E = typename I::template expr<T>;
  std::vector<std::pair<Word, CQ>> ts(expected.begin(), expected.end());
  ts = g.shuffled(ts);
  E e3;
  for(auto const& x : ts) {
    std::vector<std::shared_ptr<const typename I::gen_t>> v;
    for(auto const& s : x.first)
      v.push_back(make_gen<I>(cs.pool, s));
    E m(Sc<T>::from(x.second), typename E::monomial_t(v));
    if(g.flip())
      e3 += m;
    else
      e3 = m + e3;
  }
  MUST(e3 == e, "rebuilt from terms -> ", e3);
  // A different operator
  E d = e;
  if(!ts.empty() && g.flip()) {
    std::vector<std::shared_ptr<const typename I::gen_t>> v;
    for(auto const& s : ts[0].first)
      v.push_back(make_gen<I>(cs.pool, s));
    d -= E(Sc<T>::from(ts[0].second), typename E::monomial_t(v));
    MUST(d.size() + 1 == e.size(), "removing one term left ", d);
  } else {
    d += gen_expr<I, T>(cs.pool, gen_gs(g, cs.w));
  }
  MUST(d != e && !(d == e), "different operators compare equal: ", d);
}

// Words with many repeated generators
template <typename I, typename T> void word_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto cs = gen_case<I, T>(g, 3);
  int n = 2 + int(g.below(std::uint64_t(1 + g.size() * 8 / 100)));
  Word word;
  std::map<Mode, int> ladder;
  for(int i = 0; i < n; ++i) {
    GS x = gen_gs(g, cs.w);
    if(x.alg == S && x.mult > 2 && x.comp != Z && ++ladder[mode_of(x)] >= x.mult) x.comp = Z;
    word.push_back(x);
  }
  ctx << "indices " << cs.pool.str() << " word " << str(word);
  using E = typename I::template expr<T>;
  std::vector<std::shared_ptr<const typename I::gen_t>> v;
  for(auto const& x : word)
    v.push_back(make_gen<I>(cs.pool, x));
  E e(T(1), typename E::monomial_t(v));
  Canon expected{{Word{}, CQ(1)}};
  for(auto const& x : word)
    expected = mul_right(expected, x);
  check_form<I, T>(cs.pool, e);
  Canon got = canon_of<I, T>(cs.pool, e);
  MUST(got == expected, "expected ", str(expected), " got ", str(got));
  // left to right, right to left and split products
  E lr(T(1)), rl(T(1));
  std::size_t cut = std::size_t(g.below(word.size() + 1));
  E a(T(1)), b(T(1));
  for(std::size_t i = 0; i < word.size(); ++i) {
    auto x = gen_expr<I, T>(cs.pool, word[i]);
    lr *= x;
    rl = gen_expr<I, T>(cs.pool, word[word.size() - 1 - i]) * rl;
    (i < cut ? a : b) *= x;
  }
  MUST(lr == e && rl == e && a * b == e, "associativity: ", lr, " | ", rl, " | ", a * b);
  ctx.nontrivial(word.size() >= 3 && !expected.empty());
  ctx.label(pbt::cat("word length ", word.size()));
  ctx.label_if(expected.size() > 1, "several monomials");
}

// Ordered words made of runs of the same generator: a word is stored as it is, or it is zero when a
// run reaches the power that vanishes. Factors of different bosons and spins may be shuffled.
template <typename I, typename T> void run_case(pbt::Gen& g, pbt::Ctx& ctx) {
  int n_modes = 1 + int(g.below(4));
  Pool<I> pool(g, n_modes);
  std::vector<std::pair<Word, bool>> seqs; // one per mode
  bool zero = false;
  int high = 0;
  Word word;
  for(int i = 0; i < int(pool.v.size()); ++i) {
    GS x;
    x.idx = i;
    x.alg = g.pick(std::vector<Alg>{S, S, S, S, B, F});
    bool const large = x.alg == S && g.chance(1, 12); // spins up to 20
    if(x.alg == S) x.mult = large ? int(g.range(6, 41)) : (Sc<T>::rational ? 2 : 3) + int(g.below(3));
    Word w;
    std::vector<int> comps = x.alg == S ? std::vector<int>{P, M, Z} : std::vector<int>{1, 0};
    if(x.alg == S && x.mult == 2)
      comps = {g.pick(comps)};
    for(int c : comps) {
      x.comp = c;
      int lim = x.alg == F ? 2 : (x.alg == S && c != Z ? x.mult : 99);
      int max = x.alg == S && x.mult == 2 ? 1 : 5;
      int p = x.alg == F ? int(g.below(8) == 0 ? 2 : g.below(2)) : int(g.below(std::uint64_t(max) + 1));
      if(large && c != Z && g.chance(1, 2)) p = lim - int(g.below(3));
      if((lim <= 5 || large) && p >= lim && x.alg == S && !g.chance(1, 4)) p = lim - 1;
      zero |= p >= lim;
      high += p > 2;
      w.insert(w.end(), std::size_t(p), x);
    }
    word.insert(word.end(), w.begin(), w.end());
    seqs.push_back({w, x.alg == F});
  }
  std::sort(word.begin(), word.end());
  Word shuffled;
  {
    std::vector<std::size_t> at(seqs.size(), 0);
    Word fer; // fermions keep their order

    for(auto const& x : word)
      if(x.alg == F) fer.push_back(x);
    std::size_t fpos = 0;
    auto left = [&] {
      std::vector<int> r;
      if(fpos < fer.size()) r.push_back(-1);
      for(std::size_t k = 0; k < seqs.size(); ++k)
        if(!seqs[k].second && at[k] < seqs[k].first.size()) r.push_back(int(k));
      return r;
    };
    for(auto l = left(); !l.empty(); l = left()) {
      int k = g.pick(l);
      if(k < 0)
        shuffled.push_back(fer[fpos++]);
      else
        shuffled.push_back(seqs[std::size_t(k)].first[at[std::size_t(k)]++]);
    }
  }
  ctx << "indices " << pool.str() << " word " << str(shuffled);
  using E = typename I::template expr<T>;
  auto from = [&](Word const& w) {
    std::vector<std::shared_ptr<const typename I::gen_t>> v;
    for(auto const& x : w)
      v.push_back(make_gen<I>(pool, x));
    return E(T(1), typename E::monomial_t(v));
  };
  auto check = [&](E const& e, char const* what) {
    check_form<I, T>(pool, e);
    auto ts = terms<I, T>(pool, e);
    if(zero)
      MUST(ts.empty(), what, " should vanish, got ", e);
    else
      MUST(ts.size() == 1 && ts[0].first == word && ts[0].second == CQ(1), what, " gives ", e);
  };
  check(from(word), "the ordered word");
  check(from(shuffled), "the shuffled word");
  std::size_t cut = std::size_t(g.below(word.size() + 1));
  auto cutp = word.begin() + long(cut);
  check(from(Word(word.begin(), cutp)) * from(Word(cutp, word.end())), "a product of two words");
  E lr(T(1)), rl(T(1));
  for(std::size_t i = 0; i < shuffled.size(); ++i) {
    lr *= gen_expr<I, T>(pool, shuffled[i]);
    rl = gen_expr<I, T>(pool, shuffled[shuffled.size() - 1 - i]) * rl;
  }
  check(lr, "left to right");
  check(rl, "right to left");
  ctx.nontrivial(high >= 1 && word.size() >= 4);
  ctx.label_if(zero, "vanishes");
  ctx.label_if(high > 1, "several high powers");
}

// Decimal coefficients: where the exact sum of a term is zero, no residue of rounding is stored;
// other terms are present with the right value.
template <typename T> void decimal_case(pbt::Gen& g, pbt::Ctx& ctx) {
  WorldOpts o;
  o.max_modes = 3;
  World w = gen_world(g, o);
  using I = IdxInt;
  using E = I::expr<T>;
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos) {
    p.idx = p.idx % int(pool.v.size());
    if(p.alg == S && p.mult > 2) p.mult = 2;
  }
  auto coeff = [&] {
    auto d = [&] {
      return model::q(g.pick(std::vector<int>{1, -1, 2, -2, 3, -3, 4, -4, 6, -6, 7, -7}), 10);
    };
    CQ c(d());
    if(Sc<T>::complex && g.flip()) c.im = d();
    return c;
  };
  std::vector<GS> gens;
  for(int i = 0; i < 4; ++i)
    gens.push_back(gen_gs(g, w));
  auto sum = [&](std::pair<E, Canon>& r) {
    int n = int(g.range(1, 4));
    for(int i = 0; i < n; ++i) {
      CQ c = coeff();
      GS x = g.pick(gens);
      E t = Sc<T>::from(c) * gen_expr<I, T>(pool, x);
      if(g.chance(1, 6)) {
        r.first += Sc<T>::from(c);
        r.second = add(r.second, Canon{{Word{}, CQ(1)}}, c);
      } else if(g.flip()) {
        r.first += t;
        r.second = add(r.second, Canon{{Word{x}, CQ(1)}}, c);
      } else {
        r.first = r.first - t;
        r.second = add(r.second, Canon{{Word{x}, CQ(1)}}, -c);
      }
    }
  };
  auto check = [&](std::pair<E, Canon> const& r, char const* what) {
    auto ts = terms<I, T>(pool, r.first);
    Canon left = r.second;
    for(auto const& t : ts) {
      auto it = left.find(t.first);
      MUST(it != left.end(), what, " ", r.first, " has a superfluous term, exact: ", str(r.second));
      CQ diff = t.second - it->second;
      MUST(abs(diff.re.get_d()) + abs(diff.im.get_d()) < 1e-12, what, " ", r.first,
           " has a wrong coefficient, exact: ", str(r.second));
      left.erase(it);
    }
    MUST(left.empty(), what, " ", r.first, " misses terms, exact: ", str(r.second));
  };
  std::pair<E, Canon> a, b, c;
  sum(a);
  sum(b);
  sum(c);
  ctx << a.first << " | " << b.first << " | " << c.first;
  check(a, "sum");
  check(b, "sum");
  check(c, "sum");
  std::pair<E, Canon> ab{a.first * b.first, mul(a.second, b.second)};
  check(ab, "product");
  std::pair<E, Canon> ba{b.first * a.first, mul(b.second, a.second)};
  check(ba, "product");
  check({ab.first - ba.first, add(ab.second, ba.second, CQ(-1))}, "commutator");
  check({ab.first + ba.first, add(ab.second, ba.second)}, "anticommutator");
  E d = a.first;
  d *= b.first;
  check({d, ab.second}, "compound product");
  d -= c.first;
  check({d, add(ab.second, c.second, CQ(-1))}, "compound difference");
  std::pair<E, Canon> ac{a.first * c.first, mul(a.second, c.second)};
  check({ab.first + ac.first, mul(a.second, add(b.second, c.second))}, "distributed product");
  check({a.first * (b.first + c.first), mul(a.second, add(b.second, c.second))}, "product");
  bool cancelled = ab.second.size() < a.second.size() * b.second.size();
  ctx.nontrivial(cancelled && ab.second.size() >= 2);
}

} // namespace

PROP(tree_int_mpq, 48000, 1200000) { tree_case<IdxInt, mpq_class>(g, ctx); }
PROP(tree_strint_double, 48000, 1200000) { tree_case<IdxStrInt, double>(g, ctx); }
PROP(tree_dyn_complex, 48000, 1200000) { tree_case<IdxDyn, std::complex<double>>(g, ctx); }
PROP(tree_user_mpq, 32000, 800000) { tree_case<IdxUser, mpq_class>(g, ctx); }
PROP(word_int_br, 48000, 1200000) { word_case<IdxInt, br>(g, ctx); }
PROP(word_dyn_double, 48000, 1200000) { word_case<IdxDyn, double>(g, ctx); }
PROP(runs_int_double, 48000, 1200000) { run_case<IdxInt, double>(g, ctx); }
PROP(runs_dyn_long, 48000, 1200000) { run_case<IdxDyn, long>(g, ctx); }
PROP(decimal_double, 32000, 800000) { decimal_case<double>(g, ctx); }
PROP(decimal_complex, 32000, 800000) { decimal_case<std::complex<double>>(g, ctx); }
