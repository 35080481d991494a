// Scalars from rings that are not commutative, have zero divisors, or lack compound assignments
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

// 2x2 integer matrices. COMPOUND selects whether compound assignments exist.
template <bool COMPOUND> struct Mat {
  long a[4] = {0, 0, 0, 0};
  Mat() = default;
  Mat(long p, long q, long r, long s) : a{p, q, r, s} {}
  explicit Mat(long x) : a{x, 0, 0, x} {}
  friend Mat operator+(Mat const& x, Mat const& y) {
    return {x.a[0] + y.a[0], x.a[1] + y.a[1], x.a[2] + y.a[2], x.a[3] + y.a[3]};
  }
  friend Mat operator-(Mat const& x, Mat const& y) {
    return {x.a[0] - y.a[0], x.a[1] - y.a[1], x.a[2] - y.a[2], x.a[3] - y.a[3]};
  }
  friend Mat operator*(Mat const& x, Mat const& y) {
    return {x.a[0] * y.a[0] + x.a[1] * y.a[2], x.a[0] * y.a[1] + x.a[1] * y.a[3],
            x.a[2] * y.a[0] + x.a[3] * y.a[2], x.a[2] * y.a[1] + x.a[3] * y.a[3]};
  }
  Mat operator-() const { return Mat() - *this; }
  friend Mat operator*(Mat const& x, long y) { return x * Mat(y); }
  friend Mat operator*(long x, Mat const& y) { return Mat(x) * y; }
  friend Mat operator+(Mat const& x, long y) { return x + Mat(y); }
  friend Mat operator+(long x, Mat const& y) { return Mat(x) + y; }
  friend Mat operator-(Mat const& x, long y) { return x - Mat(y); }
  friend Mat operator-(long x, Mat const& y) { return Mat(x) - y; }
  friend bool operator==(Mat const& x, Mat const& y) { return std::equal(x.a, x.a + 4, y.a); }
  template <bool C = COMPOUND, typename = std::enable_if_t<C>> Mat& operator+=(Mat const& y) {
    return *this = *this + y;
  }
  template <bool C = COMPOUND, typename = std::enable_if_t<C>> Mat& operator-=(Mat const& y) {
    return *this = *this - y;
  }
  template <bool C = COMPOUND, typename = std::enable_if_t<C>> Mat& operator*=(Mat const& y) {
    return *this = *this * y;
  }
  static Mat gen(pbt::Gen& g) {
    Mat r;
    switch(g.below(5)) {
    case 0: return Mat(g.range(-2, 2));
    case 1: r.a[g.below(4)] = g.range(-2, 2); return r; // Often a zero divisor
    default:
      for(long& x : r.a)
        x = g.range(-2, 2);
      return r;
    }
  }
  Mat adj() const { return {a[0], a[2], a[1], a[3]}; }
  bool zero() const { return *this == Mat(); }
  bool small() const {
    for(long x : a)
      if(std::abs(x) > 1000000) return false;
    return true;
  }
  friend std::ostream& operator<<(std::ostream& os, Mat const& x) {
    return os << "[" << x.a[0] << "," << x.a[1] << ";" << x.a[2] << "," << x.a[3] << "]";
  }
};

// Integers modulo 6: a commutative ring where the product of nonzero elements may vanish
struct Z6 {
  int v = 0;
  Z6() = default;
  explicit Z6(long x) : v(int(((x % 6) + 6) % 6)) {}
  friend Z6 operator+(Z6 x, Z6 y) { return Z6(x.v + y.v); }
  friend Z6 operator-(Z6 x, Z6 y) { return Z6(x.v - y.v); }
  friend Z6 operator*(Z6 x, Z6 y) { return Z6(x.v * y.v); }
  friend Z6 operator*(Z6 x, long y) { return x * Z6(y); }
  friend Z6 operator*(long x, Z6 y) { return Z6(x) * y; }
  friend Z6 operator+(Z6 x, long y) { return x + Z6(y); }
  friend Z6 operator+(long x, Z6 y) { return Z6(x) + y; }
  friend Z6 operator-(Z6 x, long y) { return x - Z6(y); }
  friend Z6 operator-(long x, Z6 y) { return Z6(x) - y; }
  Z6 operator-() const { return Z6(-v); }
  friend bool operator==(Z6 x, Z6 y) { return x.v == y.v; }
  static Z6 gen(pbt::Gen& g) { return Z6(g.range(0, 5)); }
  Z6 adj() const { return *this; }
  bool zero() const { return v == 0; }
  bool small() const { return true; }
  friend std::ostream& operator<<(std::ostream& os, Z6 x) { return os << x.v; }
};

template <typename R> struct ring_traits {
  static bool is_zero(R const& x) { return x.zero(); }
  static R make_const(double x) { return R(long(x)); }
  static R make_const(lc::var_number const& vn) {
    if(vn.number_type != lc::var_number::integer) throw std::runtime_error("not an integer");
    return R(long(int(vn)));
  }
  static R conj(R const& x) { return x.adj(); }
};
} // namespace

namespace libcommute {
template <bool C> struct scalar_traits<Mat<C>> : ring_traits<Mat<C>> {};
template <> struct scalar_traits<Z6> : ring_traits<Z6> {};
} // namespace libcommute

namespace {

template <typename R> using RC = std::map<Word, R>;

template <typename R> void put(RC<R>& m, Word const& w, R const& v) {
  R& x = m[w];
  x = x + v;
  if(x.zero()) m.erase(w);
}
template <typename R> RC<R> radd(RC<R> a, RC<R> const& b, long f) {
  for(auto const& p : b)
    put(a, p.first, R(f) * p.second);
  return a;
}
template <typename R> RC<R> lift(Canon const& words, R const& v) {
  RC<R> r;
  for(auto const& p : words)
    put(r, p.first, v * R(p.second.re.get_num().get_si()));
  return r;
}
template <typename R> RC<R> rmul(RC<R> const& a, RC<R> const& b) {
  RC<R> r;
  for(auto const& p : a)
    for(auto const& q : b)
      r = radd(r, lift(mul(Canon{{p.first, CQ(1)}}, Canon{{q.first, CQ(1)}}), p.second * q.second),
               1);
  return r;
}
template <typename R> RC<R> rconst(R const& v) {
  RC<R> r;
  put(r, Word{}, v);
  return r;
}
template <typename R> bool fits(RC<R> const& m) {
  if(m.size() > 24) return false;
  for(auto const& p : m)
    if(p.first.size() > 6 || !p.second.small()) return false;
  return true;
}

template <typename R> void ring_sequence(pbt::Gen& g, pbt::Ctx& ctx) {
  using I = IdxInt;
  using E = typename I::template expr<R>;
  using EL = I::template expr<long>;
  WorldOpts o;
  o.max_modes = 3;
  o.s = false;
  World w = gen_world(g, o);
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  E a[3];
  RC<R> m[3];
  std::string log;
  auto atom = [&](E& e, RC<R>& c) {
    e = E();
    c = {};
    int n = 1 + int(g.below(3));
    for(int i = 0; i < n; ++i) {
      R s = R::gen(g);
      Canon word{{Word{}, CQ(1)}};
      std::vector<std::shared_ptr<const I::gen_t>> v;
      int len = int(g.range(0, 3));
      for(int k = 0; k < len; ++k) {
        GS x = gen_gs(g, w);
        v.push_back(make_gen<I>(pool, x));
        word = mul(word, Canon{{Word{x}, CQ(1)}});
      }
      e += E(s, typename E::monomial_t(v));
      c = radd(c, lift(word, s), 1);
    }
  };
  auto check = [&] {
    for(int k = 0; k < 3; ++k) {
      RC<R> got;
      for(auto const& t : a[k]) {
        Word x;
        for(auto const& y : t.monomial)
          x.push_back(to_gs<I>(pool, y));
        MUST(!t.coeff.zero(), log, "a", k, " stores a zero coefficient: ", a[k]);
        got[x] = t.coeff;
      }
      bool ok = got == m[k];
      if(!ok) {
        std::string want;
        for(auto const& p : m[k])
          want += pbt::cat(p.second, "*", str(Canon{{p.first, CQ(1)}}), " ");
        MUST(ok, log, "a", k, " is ", a[k], " expected ", want);
      }
    }
  };
  for(int k = 0; k < 3; ++k) {
    atom(a[k], m[k]);
    log += pbt::cat("a", k, "=", a[k], "; ");
  }
  check();
  int n = 2 + int(g.below(std::uint64_t(2 + g.size() * 8 / 100))), effective = 0, products = 0,
      vanished = 0;
  for(int s = 0; s < n; ++s) {
    int i = int(g.below(3)), j = int(g.below(3)), k = int(g.below(3));
    int op = int(g.below(3));
    auto bin = [&](RC<R> const& x, RC<R> const& y) {
      return op == 0 ? radd(x, y, 1) : (op == 1 ? radd(x, y, -1) : rmul(x, y));
    };
    auto lib = [&](auto const& x, auto const& y) {
      return op == 0 ? E(x + y) : (op == 1 ? E(x - y) : E(x * y));
    };
    auto asg = [&](E& x, auto const& y) {
      if(op == 0) x += y;
      if(op == 1) x -= y;
      if(op == 2) x *= y;
    };
    R v = R::gen(g);
    // Sometimes a coefficient of an expression, such that sums cancel
    if(g.chance(1, 4) && m[j].count(Word{})) v = g.flip() ? m[j][Word{}] : -m[j][Word{}];
    long l = g.range(-3, 3);
    RC<R> c;
    int what = int(g.below(10));
    switch(what) {
    case 0: c = bin(m[j], m[k]); break;
    case 1: c = bin(m[i], m[j]); break;
    case 2: c = bin(m[j], rconst(v)); break;
    case 3: c = bin(rconst(v), m[j]); break;
    case 4: c = bin(m[i], rconst(v)); break;
    case 5: c = bin(m[j], rconst(R(l))); break;
    case 6: c = bin(rconst(R(l)), m[j]); break;
    case 7: c = radd(RC<R>{}, m[j], -1); break;
    case 8:
      for(auto const& p : m[j])
        c = radd(c, lift(adjoint(Canon{{p.first, CQ(1)}}), p.second.adj()), 1);
      break;
    default: c = bin(m[j], rconst(R(l))); break;
    }
    if(!fits(c)) continue;
    ++effective;
    if(op == 2 && what < 7) {
      ++products;
      if(c.size() < m[j].size()) ++vanished;
    }
    const char* opn = op == 0 ? "+" : (op == 1 ? "-" : "*");
    log += pbt::cat("#", what, " i", i, " j", j, " k", k, " ", opn, " v=", v, " l=", l, "; ");
    switch(what) {
    case 0: a[i] = lib(a[j], a[k]); break;
    case 1: asg(a[i], a[j]); break;
    case 2: a[i] = lib(a[j], v); break;
    case 3: a[i] = lib(v, a[j]); break;
    case 4: asg(a[i], v); break;
    case 5: a[i] = lib(a[j], l); break;
    case 6: a[i] = lib(l, a[j]); break;
    case 7: a[i] = -a[j]; break;
    case 8: a[i] = conj(a[j]); break;
    default: a[i] = lib(a[j], EL(l)); break;
    }
    m[i] = c;
    check();
  }
  ctx << log;
  ctx.nontrivial(effective >= 3 && products >= 1);
  ctx.label_if(vanished > 0, "a product lost terms");
}
} // namespace

PROP(ring_matrix, 24000, 500000) { ring_sequence<Mat<false>>(g, ctx); }
PROP(ring_matrix_compound, 24000, 500000) { ring_sequence<Mat<true>>(g, ctx); }
PROP(ring_mod6, 24000, 500000) { ring_sequence<Z6>(g, ctx); }

// Multiplying by a constant never leaves a vanishing coefficient behind, not even when the product
// of two admissible floating point numbers falls below the tolerance
PROP(tiny_factors, 48000, 1000000) {
  using E = lc::expression<double, int>;
  auto tiny = [&] { return std::ldexp(g.flip() ? 1.0 : -1.0, -int(g.range(0, 44))); };
  E e;
  std::map<int, double> m;
  int n = int(g.range(1, 6));
  for(int i = 0; i < n; ++i) {
    double c = tiny();
    int idx = int(g.range(0, 9));
    if(m.count(idx)) continue;
    m[idx] = c;
    e += E(c, E::monomial_t({std::make_shared<lc::generator_fermion<int>>(true, idx)}));
  }
  double s = tiny();
  ctx << e << " times " << s;
  std::map<int, double> want;
  for(auto const& p : m)
    if(std::abs(p.second * s) >= 100 * std::numeric_limits<double>::epsilon())
      want[p.first] = p.second * s;
  auto same = [&](auto const& x, char const* what) {
    MUST(x.size() == want.size(), what, " gives ", x);
    auto it = want.begin();
    for(auto const& t : x) {
      MUST(std::real(t.coeff) == it->second && std::get<0>(t.monomial[0].indices()) == it->first,
           what, " gives ", x);
      ++it;
    }
  };
  using cx = std::complex<double>;
  same(s * e, "s*e");
  same(e * s, "e*s");
  same(E(s) * e, "E(s)*e");
  same(e * E(s), "e*E(s)");
  same(cx(s) * e, "complex(s)*e");
  same(e * cx(s), "e*complex(s)");
  E f = e;
  f *= s;
  same(f, "e*=s");
  ctx.nontrivial(want.size() < m.size() && !want.empty());
}

// Sums and differences of expressions and constants of different scalar types with decimal
// coefficients: exactly the terms whose exact coefficient vanishes are absent
PROP(decimal_mixed, 48000, 1000000) {
  using cx = std::complex<double>;
  struct Val {
    CQ c;
    double err = 0;
  };
  using Map = std::map<int, Val>; // key -1: the constant term
  lc::expression<long, int> N[2];
  lc::expression<double, int> D[2];
  lc::expression<cx, int> C[2];
  Map mn[2], md[2], mc[2];
  auto mag = [](CQ const& c) { return std::abs(c.re.get_d()) + std::abs(c.im.get_d()); };
  const double eps = std::numeric_limits<double>::epsilon();
  bool fits = true;
  auto comb = [&](Map const& a, Map const& b, int sign) {
    Map r = a;
    for(auto const& p : b) {
      auto& x = r[p.first];
      x.c = x.c + (sign > 0 ? p.second.c : -p.second.c);
      x.err += p.second.err;
    }
    for(auto it = r.begin(); it != r.end();) {
      it->second.err += eps * mag(it->second.c);
      fits = fits && it->second.err < 20 * eps && mag(it->second.c) < 1000;
      it = it->second.c.zero() ? r.erase(it) : std::next(it);
    }
    return r;
  };
  bool cancelled = false;
  auto check = [&](auto const& e, Map const& m, char const* what) {
    MUST(e.size() == m.size(), what, " gives ", e, " instead of ", m.size(), " terms");
    auto it = m.begin();
    for(auto const& t : e) {
      int key = t.monomial.size() ? std::get<0>(t.monomial[0].indices()) : -1;
      MUST(key == it->first, what, " gives ", e);
      cx got(t.coeff);
      MUST(std::abs(got - cx(it->second.c.re.get_d(), it->second.c.im.get_d())) < 1e-12, what,
           " gives ", e, " but the exact coefficient of ", key, " is ", it->second.c);
      ++it;
    }
  };
  auto num = [&](int kind) {
    auto d = [&] {
      return kind == 0 ? Q(g.range(-2, 2)) : model::q(g.range(-7, 7), g.chance(1, 6) ? 1 : 10);
    };
    CQ c(d());
    if(kind == 2 && g.flip()) c.im = d();
    return c;
  };
  std::string log;
  auto todouble = [](CQ const& c) { return c.re.get_d(); };
  auto tocx = [](CQ const& c) { return cx(c.re.get_d(), c.im.get_d()); };
  int steps = int(g.range(3, 14));
  for(int s = 0; s < steps; ++s) {
    int kind = int(g.below(3));
    int i = int(g.below(2)), j = int(g.below(2));
    int what = int(g.below(12));
    int sign = g.flip() ? 1 : -1;
    fits = true;
    auto go = [&](auto& e, Map& m, auto const& x, Map const& mx, auto const& y, Map const& my,
                  char const* name) {
      std::size_t before = mx.size();
      Map r = comb(mx, my, sign);
      if(!fits) return;
      cancelled |= r.size() < before;
      log += pbt::cat(name, sign > 0 ? "+ " : "- ", "(", x, ", ", y, "); ");
      if(sign > 0) {
        auto t = x + y;
        check(t, r, name);
        auto u = y + x;
        check(u, r, name);
        e = t;
      } else {
        auto t = x - y;
        check(t, r, name);
        Map neg;
        for(auto const& p : r)
          neg[p.first] = Val{-p.second.c, p.second.err};
        check(y - x, neg, name);
        e = t;
      }
      m = r;
    };
    auto asg = [&](auto& e, Map& m, auto const& y, Map const& my, char const* name) {
      Map r = comb(m, my, sign);
      if(!fits) return;
      cancelled |= r.size() < m.size();
      log += pbt::cat(name, sign > 0 ? "+= " : "-= ", "(", e, ", ", y, "); ");
      if(sign > 0)
        e += y;
      else
        e -= y;
      m = r;
      check(e, m, name);
    };
    CQ v = num(what < 3 ? kind : int(g.below(3)));
    auto cmap = [](CQ const& c) {
      Map m;
      if(!c.zero()) m[-1] = Val{c, 0};
      return m;
    };
    switch(what) {
    case 0:
    case 1:
    case 2: { // a new term
      int key = int(g.below(4));
      auto term = [&](auto z) {
        using T = decltype(z);
        return T(z) *
               lc::expression<T, int>(
                   T(1), typename lc::expression<T, int>::monomial_t(
                             {std::make_shared<lc::generator_boson<int>>(true, key)}));
      };
      Map m;
      if(!v.zero()) m[key] = Val{v, 0};
      if(kind == 0)
        asg(N[i], mn[i], term(v.re.get_num().get_si()), m, "term N");
      else if(kind == 1)
        asg(D[i], md[i], term(todouble(v)), m, "term D");
      else
        asg(C[i], mc[i], term(tocx(v)), m, "term C");
      break;
    }
    case 3: go(D[0], md[0], D[i], md[i], D[j], md[j], "DD"); break;
    case 4: go(C[0], mc[0], C[i], mc[i], C[j], mc[j], "CC"); break;
    case 5: go(C[0], mc[0], C[i], mc[i], D[j], md[j], "CD"); break;
    case 6: go(D[1], md[1], D[i], md[i], N[j], mn[j], "DN"); break;
    case 7: asg(C[i], mc[i], D[j], md[j], "CD"); break;
    case 8: asg(D[i], md[i], N[j], mn[j], "DN"); break;
    case 9: {
      CQ r(v.re);
      go(C[1], mc[1], C[i], mc[i], todouble(r), cmap(r), "Cd");
      break;
    }
    case 10: go(C[1], mc[1], D[i], md[i], tocx(v), cmap(v), "Dc"); break;
    default: {
      CQ r(v.re);
      go(D[1], md[1], N[i], mn[i], todouble(r), cmap(r), "Nd");
    }
    }
  }
  ctx << log;
  for(int i = 0; i < 2; ++i) {
    check(N[i], mn[i], "N");
    check(D[i], md[i], "D");
    check(C[i], mc[i], "C");
  }
  ctx.nontrivial(cancelled);
}
