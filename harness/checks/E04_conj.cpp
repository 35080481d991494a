// PBT rule: random expressions over all algebras and spins, also with coefficients scaled below the zero tolerance; non-trivial = at least two monomials, one of them with two or more generators or a complex coefficient
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename T> World world_for(pbt::Gen& g) {
  WorldOpts o;
  o.max_modes = 4;
  World w = gen_world(g, o);
  if(!Sc<T>::rational)
    for(auto& p : w.protos)
      if(p.alg == S && p.mult == 2) p.mult = 3;
  return w;
}

// <x|A y> for basis states: coefficient of x in A|y>, times the squared norm of x
CQ elem(std::vector<std::pair<Word, CQ>> const& a, std::vector<Mode> const& modes, Occ const& x,
        Occ const& y) {
  State r = act(a, modes, State{{y, CQ(1)}});
  auto it = r.find(x);
  return it == r.end() ? CQ() : it->second * CQ(weight(modes, x));
}

template <typename I, typename T> void conj_case(pbt::Gen& g, pbt::Ctx& ctx) {
  World w = world_for<T>(g);
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  int maxdeg = 1 + g.size() * 4 / 100;
  NodeP t = gen_tree<T>(g, w, maxdeg, 12, 4), u = gen_tree<T>(g, w, 2, 6, 3);
  ctx << "indices " << pool.str() << " tree " << str(*t) << " other " << str(*u);
  auto e = eval_lib<I, T>(pool, *t);
  auto f = eval_lib<I, T>(pool, *u);
  auto e0 = e;
  auto c = conj(e);
  ctx << " -> " << e << " conj " << c;
  MUST(e == e0, "conj() changed its argument");
  auto te = terms<I, T>(pool, e), tc = terms<I, T>(pool, c);
  auto modes = world_modes(w);
  // Adjoint with respect to the inner product, on matrix elements that matter
  for(int k = 0; k < 3; ++k) {
    Occ y = gen_occ(g, modes, maxdeg + 1);
    State ay = act(te, modes, State{{y, CQ(1)}});
    for(auto const& p : ay) {
      CQ l = p.second * CQ(weight(modes, p.first));
      CQ r = elem(tc, modes, y, p.first).conj();
      MUST(l == r, "element mismatch ", l, " vs ", r);
    }
    State cy = act(tc, modes, State{{y, CQ(1)}});
    for(auto const& p : cy) {
      CQ l = p.second * CQ(weight(modes, p.first));
      CQ r = elem(te, modes, y, p.first).conj();
      MUST(l == r, "element mismatch ", l, " vs ", r);
    }
  }
  bool below = below_truncation(*t);
  if(below) {
    Canon expected = adjoint(eval_canon(*t));
    MUST(canon_of(tc) == expected && tc.size() == expected.size(), "expected ", str(expected));
    MUST(conj(c) == e, "conj is not an involution: ", conj(c));
  }
  T s = Sc<T>::from(gen_scalar<T>(g));
  MUST(conj(e + f) == c + conj(f), "additivity");
  MUST(conj(e - f) == c - conj(f), "additivity");
  MUST(conj(s * e) == lc::scalar_traits<T>::conj(s) * c, "antilinearity, s = ", s);
  MUST(conj(e + s) == c + lc::scalar_traits<T>::conj(s), "constants");
  MUST(e + lc::hc == e + c, "+ hc");
  MUST(e - lc::hc == e - c, "- hc");
  MUST(conj(e + lc::hc) == (e + lc::hc) || !below, "e + hc is not Hermitian");
  // Products: exact only below the truncation degree
  std::map<Mode, int> pw, pu;
  spin_powers(*t, pw);
  spin_powers(*u, pu);
  bool prod_below = true;
  for(auto& x : pu)
    pw[x.first] += x.second;
  for(auto& x : pw)
    prod_below &= x.second < x.first.mult;
  if(prod_below)
    MUST(conj(e * f) == conj(f) * conj(e), "antimultiplicativity: ", conj(e * f), " vs ",
         conj(f) * conj(e));
  bool big = false;
  for(auto const& x : te)
    big |= x.first.size() > 1 || sgn(x.second.im) != 0;
  ctx.nontrivial(te.size() >= 2 && big);
  ctx.label_if(prod_below, "antimultiplicativity checked");
  ctx.label_if(below, "below the truncation degree");
}

// Coefficients near or below the tolerance must not disturb the others
template <typename I, typename T> void tiny_case(pbt::Gen& g, pbt::Ctx& ctx) {
  World w = world_for<T>(g);
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  typename I::template expr<T> e;
  Canon big;
  int n = 1 + int(g.below(6));
  int tiny = 0;
  for(int i = 0; i < n; ++i) {
    NodeP t = gen_tree<T>(g, w, 3, 1, 2);
    auto x = eval_lib<I, T>(pool, *t);
    Canon cx = eval_canon(*t);
    if(!below_truncation(*t)) continue;
    if(g.flip()) {
      // in two steps: a factor below the tolerance counts as zero
      x *= T(1e-9);
      x *= T(1e-9);
      ++tiny;
      ctx << " + 1e-18*" << str(*t);
    } else {
      big = add(big, cx);
      ctx << " + " << str(*t);
    }
    e += x;
  }
  auto c = conj(e);
  auto strip = [](Canon const& in) {
    Canon r;
    for(auto const& p : in)
      if(abs(p.second.re) > 1e-11 || abs(p.second.im) > 1e-11) {
        // round to the grid of the exactly known coefficients
        auto rnd = [](Q const& x) { return Q(mpz_class(std::nearbyint(x.get_d() * 4096)), 4096); };
        Q re = rnd(p.second.re), im = rnd(p.second.im);
        re.canonicalize();
        im.canonicalize();
        add_to(r, p.first, CQ(re, im));
      }
    return r;
  };
  Canon got = strip(canon_of<I, T>(pool, c)), expected = strip(adjoint(big));
  MUST(got == expected, "expected ", str(expected), " got ", str(got), " from ", e);
  ctx.nontrivial(tiny > 0 && !big.empty());
}

// User-defined algebras whose conjugation is affine. Shifted bosons b' = b+ + s, so that
// conj(b') = b + s and conj(b) = b' - s; and commuting p = s + i*(a + a+), conj(p) = 2s - p.
struct Affine : lc::generator<int> {
  int kind; // 0: b, 1: b', 2: p
  int s2;   // twice the shift
  Affine(int idx, int k, int sh) : lc::generator<int>(idx), kind(k), s2(sh) {}
  int algebra_id() const override { return lc::min_user_defined_algebra_id + (kind == 2); }
  std::shared_ptr<const lc::generator<int>> with(int k) const {
    return std::make_shared<Affine>(std::get<0>(indices()), k, s2);
  }
  lc::var_number swap_with(lc::generator<int> const& g, linear_function_t& f) const override {
    auto const& o = dynamic_cast<Affine const&>(g);
    f.set(kind == 0 && o.kind == 1 && indices() == o.indices() ? 1 : 0);
    return 1;
  }
  void conj(linear_function_t& f) const override {
    if(kind == 0) f.set(lc::var_number(-s2, 2), with(1), 1);
    if(kind == 1) f.set(lc::var_number(s2, 2), with(0), 1);
    if(kind == 2) f.set(s2, with(2), -1);
  }
  std::string to_string() const override {
    return (kind == 0 ? "b(" : kind == 1 ? "b'(" : "p(") + std::to_string(std::get<0>(indices())) +
           ")";
  }
  bool equal(lc::generator<int> const& g) const override {
    return key() == dynamic_cast<Affine const&>(g).key();
  }
  bool less(lc::generator<int> const& g) const override {
    return key() < dynamic_cast<Affine const&>(g).key();
  }
  bool greater(lc::generator<int> const& g) const override {
    return key() > dynamic_cast<Affine const&>(g).key();
  }
  std::pair<int, int> key() const { return {kind == 1 ? -1 : kind, std::get<0>(indices())}; }
};

void affine_case(pbt::Gen& g, pbt::Ctx& ctx) {
  using T = std::complex<double>;
  using I = IdxInt;
  using E = I::expr<T>;
  Pool<I> pool;
  pool.v = {0, 1};
  int shifts[4]; // b(0), b(1), p(0), p(1)
  for(int& x : shifts)
    x = int(g.range(-3, 3));
  WorldOpts o;
  o.max_modes = 2;
  World w = gen_world(g, o);
  for(auto& p : w.protos) {
    p.idx = p.idx % 2;
    if(p.alg == B) p.alg = F, p.comp %= 2;
    if(p.alg == S) p.mult = 2;
  }
  // In the model b(i) is boson i, and p(i) is built from boson 2 + i
  auto image = [&](lc::generator<int> const& x) {
    auto const* a = dynamic_cast<Affine const*>(&x);
    if(!a) return Canon{{Word{to_gs<I>(pool, x)}, CQ(1)}};
    GS b;
    b.alg = B;
    b.idx = std::get<0>(x.indices()) + (a->kind == 2 ? 2 : 0);
    GS bd = b;
    bd.comp = 1;
    CQ sh(model::q(a->s2, 2));
    if(a->kind == 0) return Canon{{Word{b}, CQ(1)}};
    if(a->kind == 1) return add(Canon{{Word{bd}, CQ(1)}}, Canon{{Word{}, CQ(1)}}, sh);
    CQ im;
    im.im = 1;
    Canon r{{Word{b}, im}, {Word{bd}, im}};
    return add(r, Canon{{Word{}, CQ(1)}}, sh);
  };
  auto value = [&](E const& e) {
    Canon r;
    for(auto const& t : e) {
      MUST(!lc::scalar_traits<T>::is_zero(t.coeff), "zero coefficient stored in ", e);
      Canon m{{Word{}, Sc<T>::to(t.coeff)}};
      for(auto const& x : t.monomial)
        m = mul(m, image(x));
      r = add(r, m);
    }
    return r;
  };
  E e, f;
  int users = 0;
  auto fill = [&](E& x, int n) {
    for(int i = 0; i < n; ++i) {
      std::vector<std::shared_ptr<const lc::generator<int>>> v;
      int len = int(g.range(0, 3));
      for(int k = 0; k < len; ++k) {
        if(g.chance(2, 3)) {
          int idx = int(g.below(2)), kind = int(g.below(3));
          v.push_back(std::make_shared<Affine>(idx, kind, shifts[idx + (kind == 2 ? 2 : 0)]));
          ++users;
        } else
          v.push_back(make_gen<I>(pool, gen_gs(g, w)));
      }
      x += E(Sc<T>::from(gen_scalar<T>(g, true)), E::monomial_t(v));
    }
  };
  fill(e, 1 + int(g.below(3)));
  fill(f, 1);
  ctx << "shifts " << shifts[0] << "/2 " << shifts[1] << "/2 " << shifts[2] << "/2 " << shifts[3]
      << "/2 " << e << " | " << f;
  auto c = conj(e);
  ctx << " conj " << c;
  MUST(value(c) == adjoint(value(e)), "wrong adjoint ", c);
  MUST(conj(c) == e, "conj is not an involution: ", conj(c));
  T s = Sc<T>::from(gen_scalar<T>(g));
  MUST(conj(e + f) == c + conj(f), "additivity");
  MUST(conj(s * e) == std::conj(s) * c, "antilinearity");
  MUST(conj(e * f) == conj(f) * c, "antimultiplicativity: ", conj(e * f), " vs ", conj(f) * c);
  MUST(e + lc::hc == e + c && e - lc::hc == e - c, "hc");
  ctx.nontrivial(users >= 2 && e.size() >= 1 && c != e);
}

} // namespace

PROP(conj_int_mpq, 24000, 600000) { conj_case<IdxInt, mpq_class>(g, ctx); }
PROP(conj_strint_double, 24000, 600000) { conj_case<IdxStrInt, double>(g, ctx); }
PROP(conj_dyn_complex, 48000, 1200000) { conj_case<IdxDyn, std::complex<double>>(g, ctx); }
PROP(conj_int_int, 18000, 450000) { conj_case<IdxInt, int>(g, ctx); }
PROP(tiny_double, 18000, 450000) { tiny_case<IdxStrInt, double>(g, ctx); }
PROP(tiny_complex, 18000, 450000) { tiny_case<IdxDyn, std::complex<double>>(g, ctx); }
PROP(conj_affine, 24000, 600000) { affine_case(g, ctx); }
