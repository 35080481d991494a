// PBT rule: one random program evaluated with up to eleven scalar types (and a non-commutative user-defined ring), plus conversions of structure constants; non-trivial = the result has two or more terms or a conversion must be rejected
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I> struct Prog {
  World w;
  Pool<I> pool;
  NodeP t;
};

bool has_half(World const& w) {
  for(auto const& p : w.protos)
    if(p.alg == S && p.mult == 2) return true;
  return false;
}

template <typename I, typename T> Prog<I> gen_prog(pbt::Gen& g, int maxdeg) {
  WorldOpts o;
  o.max_modes = 4;
  o.max_idx = 3;
  Prog<I> p;
  p.w = gen_world(g, o);
  p.pool = Pool<I>(g, p.w.n_idx);
  for(auto& x : p.w.protos)
    x.idx = x.idx % int(p.pool.v.size());
  p.t = gen_tree<T>(g, p.w, 1 + g.size() * (maxdeg - 1) / 100, 8, 4);
  return p;
}

enum Out { Ok, Threw };
template <typename I, typename T>
Out run(Prog<I> const& p, Canon& e, Canon& c, bool& canonical) {
  try {
    auto x = eval_lib<I, T>(p.pool, *p.t);
    auto ts = terms<I, T>(p.pool, x);
    e = canon_of(ts);
    canonical = ts.size() == e.size();
    c = canon_of<I, T>(p.pool, conj(x));
    return Ok;
  } catch(std::runtime_error const&) { return Threw; }
}
// The adjoint is compared only below the truncation, where forms are unique
template <typename I, typename T>
void same(Prog<I> const& p, Canon const& e, Canon const& c, char const* name, bool may_throw) {
  Canon e1, c1;
  bool canonical = true;
  Out o = run<I, T>(p, e1, c1, canonical);
  if(o == Threw) {
    MUST(may_throw, name, " refused a program it can represent");
    return;
  }
  MUST(canonical, name, ": vanishing coefficient stored");
  MUST(e1 == e, name, " gives ", str(e1), " instead of ", str(e));
  MUST(c1 == c, name, " conjugates to ", str(c1), " instead of ", str(c));
}

// Integer scalars: all types
template <typename I> void integer_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto p = gen_prog<I, int>(g, 4);
  ctx << "indices " << p.pool.str() << " tree " << str(*p.t);
  Canon e, c;
  bool canonical;
  MUST((run<I, mpq_class>(p, e, c, canonical)) == Ok && canonical, "mpq_class failed");
  if(below_truncation(*p.t))
    MUST(e == eval_canon(*p.t), "mpq_class gives ", str(e), " instead of ",
         str(eval_canon(*p.t)));
  bool half = has_half(p.w), integral = true;
  for(auto const& cc : {e, c})
    for(auto const& x : cc)
      integral &= x.second.re.get_den() == 1;
  if(integral) {
    same<I, int>(p, e, c, "int", half);
    same<I, mpz_class>(p, e, c, "mpz_class", half);
    same<I, long>(p, e, c, "long", half);
  } else {
    Canon e1, c1;
    MUST((run<I, int>(p, e1, c1, canonical)) == Threw, "int accepted a half-integer: ", str(e1));
    MUST((run<I, mpz_class>(p, e1, c1, canonical)) == Threw,
         "mpz_class accepted a half-integer: ", str(e1));
  }
  same<I, double>(p, e, c, "double", false);
  same<I, float>(p, e, c, "float", false);
  ctx.nontrivial(e.size() >= 2);
  ctx.label_if(half, "spin 1/2");
  ctx.label_if(!integral, "half-integer result");
}

// Dyadic scalars: all types that hold fractions
template <typename I> void dyadic_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto p = gen_prog<I, double>(g, 4);
  ctx << "indices " << p.pool.str() << " tree " << str(*p.t);
  Canon e, c;
  bool canonical;
  MUST((run<I, br>(p, e, c, canonical)) == Ok && canonical, "boost::rational failed");
  if(below_truncation(*p.t)) MUST(e == eval_canon(*p.t), "boost::rational gives ", str(e));
  same<I, mpq_class>(p, e, c, "mpq_class", false);
  same<I, double>(p, e, c, "double", false);
  same<I, long double>(p, e, c, "long double", false);
  same<I, std::complex<double>>(p, e, c, "complex<double>", false);
  same<I, mpf_class>(p, e, c, "mpf_class", false);
  ctx.nontrivial(e.size() >= 2);
}

// Complex scalars
template <typename I> void gaussian_case(pbt::Gen& g, pbt::Ctx& ctx) {
  using C = std::complex<double>;
  auto p = gen_prog<I, C>(g, 4);
  ctx << "indices " << p.pool.str() << " tree " << str(*p.t);
  Canon e, c;
  bool canonical;
  MUST((run<I, C>(p, e, c, canonical)) == Ok && canonical, "complex<double> failed");
  if(below_truncation(*p.t)) {
    MUST(e == eval_canon(*p.t), "complex<double> gives ", str(e), " instead of ",
         str(eval_canon(*p.t)));
    MUST(c == adjoint(e), "complex<double> conjugates to ", str(c));
  }
  same<I, std::complex<long double>>(p, e, c, "complex<long double>", false);
  same<I, std::complex<float>>(p, e, c, "complex<float>", false);
  int im = 0;
  for(auto const& x : e)
    im += sgn(x.second.im) != 0;
  ctx.nontrivial(e.size() >= 2 && im > 0);
}
// ------------------------------------------------------------------ constants

lc::var_number gen_vn(pbt::Gen& g, Q& exact, bool& is_int, bool& is_real) {
  is_int = is_real = false;
  auto i32 = [&]() -> int {
    switch(g.weighted({6, 2, 1})) {
    case 0: return int(g.range(-6, 6));
    case 1: return int(g.range(-100000, 100000));
    default: return g.flip() ? std::numeric_limits<int>::max() : -std::numeric_limits<int>::max();
    }
  };
  switch(g.weighted({2, 4, 2})) {
  case 0: {
    int i = i32();
    exact = Q(i);
    is_int = true;
    return lc::var_number(i);
  }
  case 1: {
    int n = i32(), d = i32();
    if(d == 0) d = 1;
    exact = Q(mpz_class(n), mpz_class(d));
    exact.canonicalize();
    return lc::var_number(n, d);
  }
  default: {
    double x = g.flip() ? double(g.range(-8, 8)) / 4 : double(g.range(-1000000, 1000000)) * 1.25e-7;
    exact = Q(x);
    is_real = true;
    return lc::var_number(x);
  }
  }
}

template <typename T> void vn_exact(lc::var_number const& vn, Q const& q, char const* name) {
  try {
    T x = lc::scalar_traits<T>::make_const(vn);
    MUST(Sc<T>::to(x) == CQ(q), name, " got ", x);
    MUST(x == Sc<T>::from(CQ(q)), name, ": ", x, " does not equal the same number made directly");
  } catch(std::runtime_error const&) {
    MUST(!(vn.number_type == lc::var_number::integer), name, " rejects an integer");
    if(Sc<T>::rational)
      MUST(vn.number_type == lc::var_number::real, name, " rejects a rational number");
  }
}

} // namespace

PROP(complex_zero, 64000, 1000000) {
  auto part = [&] {
    switch(g.below(4)) {
    case 0: return 0.0;
    case 1: return std::ldexp(g.flip() ? 1.0 : -1.0, -int(g.range(0, 60)));
    default: return double(g.range(-8, 8)) / 4;
    }
  };
  double a = part(), b = g.chance(1, 3) ? (g.flip() ? a : -a) : part();
  ctx << a << " " << b;
  auto check = [&](auto r, char const* name) {
    using R = decltype(r);
    bool za = std::abs(R(a)) < 100 * std::numeric_limits<R>::epsilon();
    bool zb = std::abs(R(b)) < 100 * std::numeric_limits<R>::epsilon();
    using C = std::complex<R>;
    MUST(lc::scalar_traits<R>::is_zero(R(a)) == za, "is_zero of a ", name);
    MUST(lc::scalar_traits<C>::is_zero(C(R(a), R(b))) == (za && zb), "is_zero of a complex ", name);
    MUST(lc::scalar_traits<C>::conj(C(R(a), R(b))) == C(R(a), -R(b)), "conj of a complex ", name);
    MUST(lc::scalar_traits<R>::conj(R(a)) == R(a), "conj of a ", name);
  };
  check(float(), "float");
  check(double(), "double");
  check((long double)(0), "long double");
  ctx.nontrivial(a != 0 && b != 0);
}

PROP(gaussian_int, 32000, 800000) { gaussian_case<IdxInt>(g, ctx); }
PROP(integer_int, 48000, 1200000) { integer_case<IdxInt>(g, ctx); }
PROP(dyadic_int, 48000, 1200000) { dyadic_case<IdxInt>(g, ctx); }

PROP(structure_constants, 480000, 8000000) {
  Q q;
  bool is_int, is_real;
  auto vn = gen_vn(g, q, is_int, is_real);
  ctx << vn << " type " << int(vn.number_type);
  MUST(vn.is_zero() == (sgn(q) == 0), "is_zero()");
  MUST(vn == lc::var_number(vn) && !(vn != vn), "equality");
  double d = double(vn);
  MUST(std::abs(d - q.get_d()) <= 1e-15 * std::abs(q.get_d()), "as double: ", d);
  vn_exact<int>(vn, q, "int");
  vn_exact<long>(vn, q, "long");
  vn_exact<mpz_class>(vn, q, "mpz_class");
  vn_exact<mpq_class>(vn, q, "mpq_class");
  if(abs(q.get_num()) < (1L << 31) && q.get_den() < (1L << 31)) vn_exact<br>(vn, q, "rational");
  auto near = [&](auto x, double eps, char const* name) {
    double v = double(std::real(x));
    MUST(std::abs(v - q.get_d()) <= eps * std::abs(q.get_d()), name, " got ", v);
    MUST(std::imag(x) == 0, name);
  };
  near(lc::scalar_traits<double>::make_const(vn), 1e-15, "double");
  near(lc::scalar_traits<float>::make_const(vn), 1e-7, "float");
  near(lc::scalar_traits<std::complex<double>>::make_const(vn), 1e-15, "complex");
  near(lc::scalar_traits<std::complex<float>>::make_const(vn), 1e-7, "complex<float>");
  near(lc::scalar_traits<mpf_class>::make_const(vn).get_d(), 1e-15, "mpf_class");
  // Equality of two numbers spelled the same way is equality of values
  Q q2;
  auto vn2 = gen_vn(g, q2, is_int, is_real);
  if(vn == vn2) MUST(q == q2, "different numbers compare equal: ", vn2);
  MUST((vn == vn2) == !(vn != vn2), "operator!=");
  ctx.nontrivial(vn.number_type != lc::var_number::integer);
}

namespace {
template <typename T, typename F> void dbl(double x, bool representable, char const* name, F value) {
  try {
    T r = lc::scalar_traits<T>::make_const(x);
    MUST(representable, name, " accepts ", x);
    MUST(value(r) == Q(x), name, " turns ", x, " into another number");
  } catch(std::runtime_error const&) {
    MUST(!representable || std::nearbyint(x) != x, name, " rejects ", x);
  }
}
} // namespace

PROP(double_constants, 320000, 4000000) {
  double x;
  switch(g.weighted({3, 3, 2, 2})) {
  case 0: x = double(g.range(-10, 10)); break;
  case 1: x = double(g.range(-64, 64)) / 8; break;
  case 2: x = std::ldexp(double(g.range(-9, 9)), int(g.range(0, 70))); break;
  default: x = double(g.range(-10, 10)) + std::ldexp(1.0, -int(g.range(1, 40))); break;
  }
  ctx << "x = " << x;
  bool whole = std::floor(x) == x;
  auto in = [&](double lo, double hi) { return whole && x >= lo && x < hi; };
  dbl<int>(x, in(-2147483648.0, 2147483648.0), "int", [](int r) { return Q(r); });
  dbl<short>(x, in(-32768.0, 32768.0), "short", [](short r) { return Q(long(r)); });
  dbl<long>(x, in(-9223372036854775808.0, 9223372036854775808.0), "long",
            [](long r) { return Q(r); });
  dbl<mpz_class>(x, whole, "mpz_class", [](mpz_class const& r) { return Q(r); });
  dbl<mpq_class>(x, true, "mpq_class", [](mpq_class const& r) { return r; });
  dbl<br>(x, in(-9223372036854775808.0, 9223372036854775808.0) || !whole, "boost::rational",
          [](br const& r) { return model::q(r.numerator(), r.denominator()); });
  dbl<double>(x, true, "double", [](double r) { return Q(r); });
  dbl<mpf_class>(x, true, "mpf_class", [](mpf_class const& r) { return Q(r); });
  dbl<std::complex<double>>(x, true, "complex", [](std::complex<double> r) {
    MUST(r.imag() == 0, "imaginary part");
    return Q(r.real());
  });
  ctx.nontrivial(!whole || std::abs(x) > 2147483647.0);
  ctx.label_if(whole && std::abs(x) > 2147483647.0, "out of the range of int");
}

// -------------------------------------------------- user-defined scalar types

// 2x2 integer matrices: a non-commutative ring with no compound assignments
struct M2 {
  long a[4] = {0, 0, 0, 0};
  friend M2 operator+(M2 const& x, M2 const& y) {
    M2 r;
    for(int i = 0; i < 4; ++i)
      r.a[i] = x.a[i] + y.a[i];
    return r;
  }
  friend M2 operator-(M2 const& x, M2 const& y) {
    M2 r;
    for(int i = 0; i < 4; ++i)
      r.a[i] = x.a[i] - y.a[i];
    return r;
  }
  M2 operator-() const { return M2{} - *this; }
  friend M2 operator*(M2 const& x, M2 const& y) {
    return {{x.a[0] * y.a[0] + x.a[1] * y.a[2], x.a[0] * y.a[1] + x.a[1] * y.a[3],
             x.a[2] * y.a[0] + x.a[3] * y.a[2], x.a[2] * y.a[1] + x.a[3] * y.a[3]}};
  }
  friend bool operator==(M2 const& x, M2 const& y) {
    return std::equal(x.a, x.a + 4, y.a);
  }
};
namespace libcommute {
template <> struct scalar_traits<M2> {
  static bool is_zero(M2 const& x) { return x == M2{}; }
  static M2 make_const(double x) { return {{long(x), 0, 0, long(x)}}; }
  static M2 make_const(var_number const& vn) {
    if(vn.number_type != var_number::integer) throw std::runtime_error("not an integer");
    return {{int(vn), 0, 0, int(vn)}};
  }
  static M2 conj(M2 const& x) { return {{x.a[0], x.a[2], x.a[1], x.a[3]}}; }
};
} // namespace libcommute

namespace {
using EM = lc::expression<M2, int>;
using EL = lc::expression<long, int>;
struct Both {
  EM m;
  EL c[4];
};
Canon comp(Pool<IdxInt> const& pool, EM const& e, int k) {
  Canon r;
  for(auto const& t : e) {
    Word w;
    for(auto const& x : t.monomial)
      w.push_back(to_gs<IdxInt>(pool, x));
    add_to(r, w, CQ(t.coeff.a[k]));
  }
  return r;
}
M2 gen_m2(pbt::Gen& g) {
  M2 r;
  for(long& x : r.a)
    x = g.range(0, 4) % 3 - (g.flip() ? 1 : 0);
  return r;
}
} // namespace

PROP(matrix_ring, 96000, 2400000) {
  WorldOpts o;
  o.max_modes = 3;
  World w = gen_world(g, o);
  for(auto& p : w.protos)
    if(p.alg == S && p.mult == 2) p.mult = 3;
  Pool<IdxInt> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  auto atom = [&]() {
    Both b;
    int n = 1 + int(g.below(2));
    for(int i = 0; i < n; ++i) {
      M2 s = gen_m2(g);
      std::vector<std::shared_ptr<const IdxInt::gen_t>> v;
      int len = int(g.range(0, 2));
      for(int k = 0; k < len; ++k)
        v.push_back(make_gen<IdxInt>(pool, gen_gs(g, w)));
      b.m += EM(s, EM::monomial_t(v));
      for(int k = 0; k < 4; ++k)
        b.c[k] += EL(s.a[k], EL::monomial_t(v));
    }
    return b;
  };
  auto matmul = [](EL const* x, EL const* y, EL* r) {
    EL t[4] = {x[0] * y[0] + x[1] * y[2], x[0] * y[1] + x[1] * y[3], x[2] * y[0] + x[3] * y[2],
               x[2] * y[1] + x[3] * y[3]};
    for(int k = 0; k < 4; ++k)
      r[k] = t[k];
  };
  Both x = atom();
  int steps = 1 + int(g.below(4)), products = 0;
  ctx << "start " << str(comp(pool, x.m, 0));
  for(int s = 0; s < steps; ++s) {
    M2 v = gen_m2(g);
    EL vc[4];
    for(int k = 0; k < 4; ++k)
      vc[k] = EL(v.a[k]);
    auto op = g.weighted({2, 2, 2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1});
    ctx << " op" << op;
    if((op == 4 || op == 5) && (x.m.size() > 6 || ++products > 2)) op = 0;
    switch(op) {
    case 0: case 1: case 2: case 3: {
      Both y = atom();
      if(op == 0) x.m = x.m + y.m;
      if(op == 1) x.m += y.m;
      if(op == 2) x.m = x.m - y.m;
      if(op == 3) x.m -= y.m;
      for(int k = 0; k < 4; ++k)
        x.c[k] = op < 2 ? x.c[k] + y.c[k] : x.c[k] - y.c[k];
      break;
    }
    case 4: case 5: {
      Both y = atom();
      if(op == 4) x.m = x.m * y.m;
      else x.m *= y.m;
      matmul(x.c, y.c, x.c);
      break;
    }
    case 6: x.m = v * x.m; matmul(vc, x.c, x.c); break;
    case 7: x.m = x.m * v; matmul(x.c, vc, x.c); break;
    case 8: x.m *= v; matmul(x.c, vc, x.c); break;
    case 9: case 10: case 11: {
      if(op == 9) x.m = x.m + v;
      if(op == 10) x.m = v + x.m;
      if(op == 11) x.m += v;
      for(int k = 0; k < 4; ++k)
        x.c[k] += vc[k];
      break;
    }
    case 12: {
      bool left = g.flip();
      if(left) x.m = v - x.m;
      else x.m -= v;
      for(int k = 0; k < 4; ++k)
        x.c[k] = left ? vc[k] - x.c[k] : x.c[k] - vc[k];
      break;
    }
    default: {
      x.m = conj(-x.m);
      EL t[4] = {conj(x.c[0]), conj(x.c[2]), conj(x.c[1]), conj(x.c[3])};
      for(int k = 0; k < 4; ++k)
        x.c[k] = -t[k];
    }
    }
    for(int k = 0; k < 4; ++k) {
      Canon a = comp(pool, x.m, k), b = canon_of<IdxInt, long>(pool, x.c[k]);
      MUST(a == b, "component ", k, " is ", str(a), " instead of ", str(b));
    }
  }
  ctx.nontrivial(products > 0 && x.m.size() >= 2);
}
