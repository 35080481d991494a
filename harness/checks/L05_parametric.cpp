// PBT rule: operators of random expressions whose coefficients are polynomials of two parameters, in small Hilbert spaces, acting at random parameter values given as no argument, one or two numbers, complex numbers, lvalues, constant references, temporaries and arguments the coefficients take by value; histories of calls on one operator with reused, dirty result vectors and coefficient stores; non-trivial = two or more monomials and the image is not zero
#include <libcommute/loperator/state_vector_eigen3.hpp>

#include "op.hpp"
using namespace bridge;

namespace {

// An argument that coefficients take by value
struct Pack {
  std::vector<double> v;
};
struct Text {
  std::string s;
};
struct AtInt {
  long x, y;
};

// Polynomial of x and y; the second flavour only has the operators of the manual's example
struct Terms {
  std::map<std::pair<int, int>, double> c;
  void put(int i, int j, double v) {
    double& r = c[{i, j}];
    r += v;
    if(r == 0) c.erase({i, j});
  }
  template <typename X> X at(X x, X y) const {
    X r(0);
    for(auto const& p : c) {
      X t(p.second);
      for(int k = 0; k < p.first.first; ++k)
        t = t * x;
      for(int k = 0; k < p.first.second; ++k)
        t = t * y;
      r = r + t;
    }
    return r;
  }
};
constexpr double X0 = 2, Y0 = -1;

template <bool Full> struct Poly : Terms {
  Poly() = default;
  explicit Poly(double v) { put(0, 0, v); }
  Poly(double one, double x, double y) {
    put(0, 0, one);
    put(1, 0, x);
    put(0, 1, y);
  }
  friend Poly operator+(Poly a, Poly const& b) {
    for(auto const& p : b.c)
      a.put(p.first.first, p.first.second, p.second);
    return a;
  }
  friend Poly operator-(Poly a, Poly const& b) {
    for(auto const& p : b.c)
      a.put(p.first.first, p.first.second, -p.second);
    return a;
  }
  friend Poly operator*(Poly const& a, Poly const& b) {
    Poly r;
    for(auto const& p : a.c)
      for(auto const& q : b.c)
        r.put(p.first.first + q.first.first, p.first.second + q.first.second, p.second * q.second);
    return r;
  }
  Poly operator-() const { return Poly() - *this; }
  template <bool F = Full> std::enable_if_t<F, Poly&> operator+=(Poly const& o) { return *this = *this + o; }
  template <bool F = Full> std::enable_if_t<F, Poly&> operator-=(Poly const& o) { return *this = *this - o; }
  template <bool F = Full> std::enable_if_t<F, Poly&> operator*=(Poly const& o) { return *this = *this * o; }

  double operator()() const { return at(X0, Y0); }
  double operator()(double x) const { return at(x, Y0); }
  double operator()(double x, double y) const { return at(x, y); }
  cplx operator()(cplx const& x) const { return at(x, cplx(Y0)); }
  cplx operator()(cplx const& x, double y) const { return at(x, cplx(y)); }
  double operator()(Pack p) const { return at(p.v.at(0), p.v.at(1)); }
  double operator()(double x, Pack p) const { return at(x, p.v.at(1)); }
  double operator()(Text t, std::unique_ptr<double> const& y) const { return at(std::stod(t.s), *y); }
  long operator()(AtInt a) const { return long(at(double(a.x), double(a.y))); }
};

} // namespace

namespace libcommute {
template <bool Full> struct scalar_traits<Poly<Full>> {
  static bool is_zero(Poly<Full> const& p) { return p.c.empty(); }
  static Poly<Full> make_const(double x) { return Poly<Full>(x); }
  static Poly<Full> make_const(var_number const& v) { return Poly<Full>(double(v)); }
};
} // namespace libcommute

namespace bridge {
// Scalar a + bi of the tree stands for the polynomial a + b x + ab y
template <bool Full> struct Sc<Poly<Full>> {
  static constexpr bool complex = true, rational = true, exact = true, fp = false;
  static Poly<Full> from(CQ const& c) {
    double a = c.re.get_d(), b = c.im.get_d();
    return Poly<Full>(a, b, a * b);
  }
};
} // namespace bridge

namespace {

struct CQXY {
  CQ x, y;
};
NodeP subst(Node const& n, CQXY const& at) {
  auto r = std::make_shared<Node>(n);
  r->val = CQ(n.val.re) + CQ(n.val.im) * at.x + CQ(Q(n.val.re * n.val.im)) * at.y;
  if(n.l) r->l = subst(*n.l, at);
  if(n.r) r->r = subst(*n.r, at);
  return r;
}

template <typename T> std::vector<T> plain(std::vector<T> const& v) { return v; }
template <typename T> std::vector<T> plain(lc::sparse_state_vector<T> const& v) {
  std::vector<T> r(v.size(), T(0));
  foreach(v, [&](u64 i, T const& x) { r[i] = x; });
  return r;
}
template <typename T> std::vector<T> plain(Eigen::Matrix<T, Eigen::Dynamic, 1> const& v) {
  return std::vector<T>(v.data(), v.data() + v.size());
}
template <typename T> void fill(std::vector<T>& v, std::vector<T> const& x) { v = x; }
template <typename T> void fill(lc::sparse_state_vector<T>& v, std::vector<T> const& x) {
  for(std::size_t i = 0; i < x.size(); ++i)
    if(x[i] != T(0)) v[i] = x[i];
}
template <typename T> void fill(Eigen::Matrix<T, Eigen::Dynamic, 1>& v, std::vector<T> const& x) {
  for(std::size_t i = 0; i < x.size(); ++i)
    v(Eigen::Index(i)) = x[i];
}
template <typename V, typename T> V make(std::vector<T> const& x) {
  V v(typename std::conditional<std::is_same_v<V, lc::sparse_state_vector<T>>, u64, long>::type(x.size()));
  fill(v, x);
  return v;
}

std::shared_ptr<Node> node(Node::Kind k, NodeP l, NodeP r) {
  auto n = std::make_shared<Node>();
  n->kind = k;
  n->l = l;
  n->r = r;
  return n;
}
std::shared_ptr<Node> leaf(GS const& x) {
  auto n = std::make_shared<Node>();
  n->kind = Node::Gen;
  n->gs = x;
  return n;
}

template <typename P, typename V, typename T> struct Case {
  using I = IdxInt;
  OpSpace<I> s;
  NodeP tree;
  lc::expression<P, int> e;
  std::vector<u64> basis;
  using op_t = decltype(lc::make_param_loperator(e, s.hs));
  std::vector<op_t> ops; // copies of one operator
  std::vector<std::pair<model::Word, P>> mono;

  static OpOpts opts() {
    OpOpts o;
    o.n_idx = 5;
    o.sites.max_bits = 6;
    o.sites.max_dim = 40;
    o.sites.max_mult = 5;
    if(std::is_same_v<T, long>) o.sites.b = o.sites.s = false;
    return o;
  }
  Case(pbt::Gen& g, pbt::Ctx& ctx, bool many = false) : s(g, opts()), basis(s.L.all()) {
    tree = gen_tree<P>(g, s.w, 4, 8, 4);
    if(many)
      for(int i = int(g.range(10, 120)); i > 0; --i) {
        auto t = std::make_shared<Node>();
        t->kind = Node::Const;
        t->val = gen_scalar<P>(g);
        for(int k = int(g.range(1, 4)); k > 0; --k)
          t = node(Node::Mul, t, leaf(gen_gs(g, s.w)));
        tree = node(Node::Add, tree, t);
      }
    ctx << str(s.L.sites) << " " << str(*tree);
    e = eval_lib<I, P>(s.pool, *tree);
    for(auto const& t : e) {
      model::Word w;
      for(auto const& x : t.monomial)
        w.push_back(to_gs<I>(s.pool, x));
      mono.emplace_back(w, t.coeff);
    }
    ops.push_back(lc::make_param_loperator(e, s.hs));
  }
  std::vector<T> state(pbt::Gen& g) {
    std::vector<T> v(std::size_t(s.hs.vec_size()), T(0));
    bool one = g.chance(1, 3);
    for(u64 b : basis)
      if(!one && g.chance(2, 3)) v[b] = Sc<T>::from(gen_scalar<T>(g));
    if(one) v[g.pick(basis)] = 1;
    return v;
  }
  RefVec image(std::vector<T> const& in, CQXY const& at) {
    auto t = subst(*tree, at);
    std::vector<std::pair<model::Word, CQ>> ts;
    for(auto const& m : mono) {
      CQ c;
      for(auto const& p : m.second.c) {
        CQ x(Q(p.second));
        for(int k = 0; k < p.first.first; ++k)
          x = x * at.x;
        for(int k = 0; k < p.first.second; ++k)
          x = x * at.y;
        c += CQ(abs(x.re), abs(x.im));
      }
      ts.emplace_back(m.first, c);
    }
    RefVec want;
    for(std::size_t i = 0; i < in.size(); ++i)
      if(in[i] != T(0))
        ref_column(want, s.L, i, as_cplx(in[i]),
                   [&](std::vector<model::Mode> const& m, model::State const& st) { return eval_state(*t, m, st); }, ts);
    return want;
  }
};

// Ways to act with arguments 'a...'; 'fresh' makes them anew, so that they may be moved from
template <typename P, typename V, typename T, typename R, typename Call>
void act(pbt::Gen& g, pbt::Ctx& ctx, Case<P, V, T>& c, CQXY const& at, std::vector<R>& store, V& dst,
         char const* what, Call const& call) {
  auto in = c.state(g);
  V const src = make<V>(in);
  auto want = c.image(in, at);
  bool nz = false;
  for(auto const& p : want.v)
    nz |= p.second != cplx(0);
  if(g.chance(1, 4)) {
    auto k = g.below(c.ops.size());
    switch(g.below(3)) {
    case 0: c.ops.push_back(c.ops[k]); break;
    case 1: {
      auto m = std::move(c.ops[k]);
      c.ops[k] = std::move(m);
      break;
    }
    default: {
      auto o = lc::make_param_loperator(c.e, c.s.hs);
      o = c.ops[k];
      c.ops[k] = o;
    }
    }
  }
  auto const& op = g.pick(c.ops);
  auto way = g.below(4);
  ctx << "; " << what << " " << way;
  switch(way) {
  case 0: {
    V r = call([&](auto&&... a) { return op(src, std::forward<decltype(a)>(a)...); });
    compare(dense_map(plain(r)), want, "op(sv, args)");
    break;
  }
  case 1:
    call([&](auto&&... a) { op(src, dst, std::forward<decltype(a)>(a)...); });
    compare(dense_map(plain(dst)), want, "op(src, dst, args)");
    break;
  case 2: {
    // The store keeps whatever the previous calls left in it
    R const* data = store.data();
    std::size_t cap = store.capacity();
    call([&](auto&&... a) { op.act_and_store_coeffs(src, dst, store, std::forward<decltype(a)>(a)...); });
    compare(dense_map(plain(dst)), want, "act_and_store_coeffs(src, dst, store, args)");
    MUST(store.size() == c.mono.size(), "number of stored coefficients");
    for(std::size_t i = 0; i < store.size(); ++i) {
      R v = call([&](auto&&... a) { return c.mono[i].second(std::forward<decltype(a)>(a)...); });
      MUST(store[i] == v, "stored coefficient ", i);
    }
    if(cap >= c.mono.size()) MUST(store.data() == data, "the store was reallocated");
    break;
  }
  default: {
    auto L = call([&](auto&&... a) { return op.at(std::forward<decltype(a)>(a)...); });
    V r = L(src);
    compare(dense_map(plain(r)), want, "op.at(args)(sv)");
    compare(dense_map(plain(V(L * src))), want, "op.at(args) * sv");
  }
  }
  MUST(plain(src) == in, "the source changed");
  ctx.nontrivial(nz && c.mono.size() > 1);
}

template <typename P, typename V, typename T> void history(pbt::Gen& g, pbt::Ctx& ctx, bool many = false) {
  Case<P, V, T> c(g, ctx, many);
  ctx.label_if(c.mono.size() > 32, "more than 32 monomials");
  std::vector<double> store(g.below(4), 77.0);
  std::vector<T> dirty(std::size_t(c.s.hs.vec_size()), T(0));
  for(u64 b : c.basis)
    if(g.flip()) dirty[b] = T(5);
  V dst = make<V>(dirty);
  int n = 1 + g.len(0, 5);
  for(int k = 0; k < n; ++k) {
    CQ cx = gen_scalar<double>(g), cy = gen_scalar<double>(g);
    double x = cx.re.get_d(), y = cy.re.get_d();
    double const cxd = x;
    switch(g.below(9)) {
    case 0:
      act(g, ctx, c, {CQ(Q(X0)), CQ(Q(Y0))}, store, dst, "()", [](auto const& f) { return f(); });
      break;
    case 1:
      ctx << " x=" << x;
      act(g, ctx, c, {cx, CQ(Q(Y0))}, store, dst, "(x)", [&](auto const& f) { return f(x); });
      break;
    case 2:
      ctx << " x=" << x << " y=" << y;
      act(g, ctx, c, {cx, cy}, store, dst, "(const x, y temporary)", [&](auto const& f) { return f(cxd, double(y)); });
      break;
    case 3:
      act(g, ctx, c, {cx, cy}, store, dst, "(pack temporary)", [&](auto const& f) { return f(Pack{{x, y}}); });
      break;
    case 4: {
      Pack p{{x, y}};
      act(g, ctx, c, {cx, cy}, store, dst, "(pack)", [&](auto const& f) { return f(p); });
      MUST(p.v == std::vector<double>({x, y}), "the argument changed");
      break;
    }
    case 5: {
      Pack const p{{x, y}};
      act(g, ctx, c, {cx, cy}, store, dst, "(const pack)", [&](auto const& f) { return f(p); });
      break;
    }
    case 6:
      act(g, ctx, c, {cx, cy}, store, dst, "(x, pack temporary)",
          [&](auto const& f) { return f(float(x), Pack{{0, y}}); });
      break;
    case 7:
      act(g, ctx, c, {cx, cy}, store, dst, "(text temporary, pointer temporary)",
          [&](auto const& f) { return f(Text{std::to_string(x)}, std::make_unique<double>(y)); });
      break;
    default: {
      Pack p{{x, y}};
      act(g, ctx, c, {cx, cy}, store, dst, "(moved pack)", [&](auto const& f) {
        Pack q = p;
        return f(std::move(q));
      });
    }
    }
  }
}

using PF = Poly<true>;
using PM = Poly<false>;
using VecD = std::vector<double>;

} // namespace

PROP(vectors, 30000, 600000) { history<PF, VecD, double>(g, ctx); }
PROP(vectors_minimal_scalar, 21000, 450000) { history<PM, VecD, double>(g, ctx); }
PROP(complex_vectors, 21000, 450000) { history<PM, std::vector<cplx>, cplx>(g, ctx); }
PROP(sparse, 21000, 450000) { history<PF, lc::sparse_state_vector<double>, double>(g, ctx); }
PROP(eigen, 21000, 450000) { history<PF, Eigen::VectorXd, double>(g, ctx); }
PROP(vectors_many_terms, 2000, 60000) { history<PF, VecD, double>(g, ctx, true); }
PROP(sparse_many_terms, 1000, 30000) { history<PF, lc::sparse_state_vector<double>, double>(g, ctx, true); }

// Complex parameters
PROP(complex_parameters, 21000, 450000) {
  Case<PF, std::vector<cplx>, cplx> c(g, ctx);
  std::vector<cplx> store(g.below(3), cplx(1, 2)), dst(std::size_t(c.s.hs.vec_size()), cplx(3, 4));
  int n = 1 + g.len(0, 4);
  for(int k = 0; k < n; ++k) {
    CQ x = gen_scalar<cplx>(g), y = gen_scalar<double>(g);
    cplx xv = Sc<cplx>::from(x);
    double yv = Sc<double>::from(y);
    if(g.flip())
      act(g, ctx, c, {x, CQ(Q(Y0))}, store, dst, "(complex)", [&](auto const& f) { return f(xv); });
    else
      act(g, ctx, c, {x, y}, store, dst, "(complex temporary, y)", [&](auto const& f) { return f(cplx(xv), yv); });
  }
}
// Integer coefficients of fermionic operators
PROP(integers, 21000, 450000) {
  Case<PF, std::vector<long>, long> c(g, ctx);
  for(auto const& m : c.mono)
    for(auto const& p : m.second.c)
      if(p.second != long(p.second)) throw pbt::Discard();
  std::vector<long> store(g.below(3), 3), dst(std::size_t(c.s.hs.vec_size()), 4);
  int n = 1 + g.len(0, 4);
  for(int k = 0; k < n; ++k) {
    long x = long(g.range(-3, 3)), y = long(g.range(-3, 3));
    act(g, ctx, c, {CQ(x), CQ(y)}, store, dst, "(integers)", [&](auto const& f) { return f(AtInt{x, y}); });
  }
}
// Fixing the parameters is the same as substituting them into the expression
PROP(substitution, 30000, 600000) {
  Case<PF, VecD, double> c(g, ctx);
  double x = Sc<double>::from(gen_scalar<double>(g)), y = Sc<double>::from(gen_scalar<double>(g));
  auto e = transform(c.e, [&](lc::monomial<int> const&, PF const& p) { return p(x, y); });
  static_assert(std::is_same_v<decltype(e), lc::expression<double, int>>);
  auto L = lc::make_loperator(e, c.s.hs);
  auto A = c.ops[0].at(x, y);
  static_assert(std::is_same_v<decltype(L), decltype(A)>);
  auto in = c.state(g);
  RefVec want = c.image(in, {CQ(Q(x)), CQ(Q(y))});
  compare(dense_map(L(in)), want, "operator of the substituted expression");
  compare(dense_map(A(in)), want, "at()");
  ctx.nontrivial(e.size() > 1);
}
